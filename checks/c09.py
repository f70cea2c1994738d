"""C09: -Cr stops exactly the accesses that are out of range, and only those."""
from common import *

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


# RANGE(c): under -Cr the program must end here with the range-error status when c is false; without -Cr c is assumed
FILL = "for i := 0 to %d do %s; "
# ---- one dimension: every kind of index type, element type and bound --------------------------------------------------
for name, idx, lo, hi, decl, rd, conv, inp in [
        ("pos", "5..9", 5, 9, "x : integer", "read(x)", "x", "in_i32()"),
        ("neg", "-7..4", -7, 4, "x : integer", "read(x)", "x", "in_i32()"),
        ("zero", "0..12", 0, 12, "x : integer", "read(x)", "x", "in_i32()"),
        ("one", "3..3", 3, 3, "x : integer", "read(x)", "x", "in_i32()"),
        ("allneg", "-20..-11", -20, -11, "x : integer", "read(x)", "x", "in_i32()"),
        ("far", "100000..100009", 100000, 100009, "x : integer", "read(x)", "x", "in_i32()"),
        ("top", "2147483640..2147483647", 2147483640, 2147483647, "x : integer", "read(x)", "x", "in_i32()"),
        ("bottom", "-2147483647..-2147483640", -2147483647, -2147483640, "x : integer", "read(x)", "x", "in_i32()"),
        ("long", "5..9", 5, 9, "x : longint", "read(x)", "x", "in_i64()"),
        ("longneg", "-7..4", -7, 4, "x : longint", "read(x)", "x", "in_i64()"),
        ("expr", "5..9", 5, 9, "x : integer", "read(x)", "x * 2 + 1", "in_i32()"),
        ("exprl", "-3..9", -3, 9, "x : longint", "read(x)", "x - 3", "in_i64()"),
        ("sub", "10..20", 10, 20, "x : 0..30", "read(q); x := q", "x", "in_range(0,30)"),
        ("char", "'b'..'f'", 98, 102, "x : char", "read(x)", "x", "in_chr()"),
        ("hichar", "chr(120)..chr(140)", 120, 140, "x : char", "read(x)", "x", "in_chr()"),
        ("allchar", "char", 0, 255, "x : char", "read(x)", "x", "in_chr()"),
        ("enum", "green..cyan", 1, 3, "x : col", "read(q); x := ec[q]", "x", "in_range(0,4)"),
        ("enumall", "col", 0, 4, "x : col", "read(q); x := ec[q]", "x", "in_range(0,4)"),
        ("bool", "boolean", 0, 1, "x : boolean", "read(q); x := odd(q)", "x", "(in_i32() & 1)")]:
    cx = {"x * 2 + 1": "wadd(wmul(x, 2), 1)", "x - 3": "wsub64(x, 3)"}.get(conv, "x")
    n = hi - lo + 1
    first = {"char": "'b'", "hichar": "chr(120)", "allchar": "chr(0)", "enum": "green", "enumall": "red", "bool": "false"}.get(name, str(lo))
    last = {"char": "'f'", "hichar": "chr(140)", "allchar": "chr(255)", "enum": "cyan", "enumall": "pink", "bool": "true"}.get(name, str(hi))
    for et, ct, val in (("integer", "i32", "i"), ("char", "u8", "chr(i)")) if name in ("neg", "char", "long") or THOROUGH else (("integer", "i32", "i"),):
        P("d1_%s_%s" % (name, et), """program p; type col = (red, green, blue, cyan, pink); ix = %(idx)s; var g1 : integer; a : array [ix] of %(et)s; g2 : integer; ec : array [0..4] of col; q, i : integer; %(decl)s; j : ix; v : %(et)s;
begin ec[0] := red; ec[1] := green; ec[2] := blue; ec[3] := cyan; ec[4] := pink; g1 := 1111; g2 := 2222; i := 0; for j := %(first)s to %(last)s do begin i := i + 1; a[j] := %(val)s end;
 %(rd)s; writeln('r'); v := a[%(conv)s]; writeln(ord(v)); a[%(conv)s] := %(nv)s; writeln(g1, ' ', g2); writeln(ord(a[%(first)s])); writeln(ord(a[%(last)s])); writeln(ord(a[%(conv)s]))
end.
""" % dict(idx=idx, et=et, decl=decl, rd=rd, conv=conv, val=val, first=first, last=last, nv="99" if et == "integer" else "'c'"),
            """void oracle(void){ i64 x = %s; i64 k = %s; o_txt("r"); NL; RANGE((k >= %d) & (k <= %d)); i32 e = (i32)(k - (%dll) + 1); o_int((%s)e, 0); NL; I(1111); SP; IL(2222); IL(e == 1 ? 99 : (%s)1); IL(e == %d ? 99 : (%s)%d); IL(99); }"""
            % (inp, cx, lo, hi, lo, ct, ct, n, ct, n), opts=None)
# ---- two and three dimensions: each dimension is checked, in every combination -----------------------------------------
P("d2", """program p; var g1 : integer; m : array [2..4, -1..1] of integer; g2 : integer; i, j, k, l : integer;
begin g1 := 5; g2 := 6; for i := 2 to 4 do for j := -1 to 1 do m[i, j] := i * 10 + j; read(i); read(j); read(k); read(l); writeln('r'); writeln(m[i, j]); m[k, l] := 7; writeln(m[k, l]); writeln(g1, g2) end.
""", """void oracle(void){ i32 i = in_i32(), j = in_i32(), k = in_i32(), l = in_i32(); o_txt("r"); NL; RANGE((i >= 2) & (i <= 4)); RANGE((j >= -1) & (j <= 1)); IL(i * 10 + j); RANGE((k >= 2) & (k <= 4)); RANGE((l >= -1) & (l <= 1)); IL(7); I(5); IL(6); }""")
P("d2mixed", """program p; type col = (red, green, blue, cyan); var m : array ['c'..'e', green..cyan] of integer; c, d : char; ec : array [0..3] of col; q, i : integer; e : col;
begin ec[0] := red; ec[1] := green; ec[2] := blue; ec[3] := cyan; i := 0; for c := 'c' to 'e' do for e := green to cyan do begin i := i + 1; m[c, e] := i end; read(c); read(q); e := ec[q]; writeln('r'); writeln(m[c, e]) end.
""", """void oracle(void){ i32 c = in_chr(), q = in_range(0, 3); o_txt("r"); NL; RANGE((c >= 'c') & (c <= 'e')); RANGE((q >= 1) & (q <= 3)); IL((c - 'c') * 3 + q); }""")
P("d3", """program p; var m : array [0..1, 5..7, -2..0] of integer; i, j, k, n : integer; l : longint;
begin n := 0; for i := 0 to 1 do for j := 5 to 7 do for k := -2 to 0 do begin m[i, j, k] := n; n := n + 1 end; read(i); read(l); read(k); writeln('r'); writeln(m[i, l, k]); m[i, l, k] := -1; writeln(m[0, 5, -2], ' ', m[1, 7, 0]) end.
""", """void oracle(void){ i32 i = in_i32(); i64 l = in_i64(); i32 k = in_i32(); o_txt("r"); NL; RANGE((i >= 0) & (i <= 1)); RANGE((l >= 5) & (l <= 7)); RANGE((k >= -2) & (k <= 0)); i32 n = i * 9 + ((i32)l - 5) * 3 + k + 2; IL(n); I(n == 0 ? -1 : 0); SP; IL(n == 17 ? -1 : 17); }""")
P("d2long", """program p; var m : array [1..3, 4..6] of integer; i, j : integer; l, k : longint;
begin for i := 1 to 3 do for j := 4 to 6 do m[i, j] := i * 10 + j; read(l); read(i); read(k); writeln('r'); writeln(m[l, i]); writeln(m[l, k]); j := 2; writeln(m[j, k]) end.
""", """void oracle(void){ i64 l = in_i64(); i32 i = in_i32(); i64 k = in_i64(); o_txt("r"); NL; RANGE((l >= 1) & (l <= 3)); RANGE((i >= 4) & (i <= 6)); IL((i32)l * 10 + i); RANGE((k >= 4) & (k <= 6)); IL((i32)l * 10 + (i32)k); IL(20 + (i32)k); }""")
# ---- arrays inside arrays, records, pointers; var parameters; nested index expressions -----------------------------------
P("nested", """program p; type row = array [1..4] of integer; rec = record n : integer; a : array [5..8] of row; m : integer end; var r : rec; pr : ^rec; aa : array [0..2] of rec; i, j, k, v : integer;
procedure sv(var x : integer; v : integer); begin x := v end;
begin r.n := 1; r.m := 2; for i := 5 to 8 do for j := 1 to 4 do r.a[i][j] := i * 10 + j; for i := 0 to 2 do aa[i] := r; new(pr); pr^ := r; read(i); read(j); read(k); writeln('r');
 writeln(r.a[i][j]); sv(pr^.a[i][j], 9); writeln(pr^.a[i][j]); writeln(aa[k].a[i][j]); with aa[k] do a[i][j] := 8; writeln(aa[k].a[i][j], ' ', aa[k].n, ' ', aa[k].m) end.
""", """void oracle(void){ i32 i = in_i32(), j = in_i32(), k = in_i32(); o_txt("r"); NL; RANGE((i >= 5) & (i <= 8)); RANGE((j >= 1) & (j <= 4)); IL(i * 10 + j); IL(9); RANGE((k >= 0) & (k <= 2)); IL(i * 10 + j); IL(8), SP, (void)0; }""".replace("IL(8), SP, (void)0", "I(8); SP; I(1); SP; IL(2)"))
P("index_of_index", """program p; var a : array [1..5] of integer; b : array [0..4] of 1..5; c : array [char] of integer; i : integer; ch : char;
begin for i := 0 to 4 do b[i] := 5 - i; for i := 1 to 5 do a[i] := i * 3; for i := 0 to 255 do c[chr(i)] := i; read(i); read(ch); writeln('r'); writeln(a[b[i]]); writeln(b[a[b[i]] div 3 - 1]); writeln(a[c[ch]]) end.
""", """void oracle(void){ i32 i = in_i32(), ch = in_chr(); o_txt("r"); NL; RANGE((i >= 0) & (i <= 4)); IL((5 - i) * 3); IL(5 - (5 - i - 1)); RANGE((ch >= 1) & (ch <= 5)); IL(ch * 3); }""")
P("order", """program p; var a : array [1..3] of integer; i : integer;
function f(x : integer) : integer; begin writeln('f', x); f := x end;
begin a[1] := 1; a[2] := 2; a[3] := 3; read(i); writeln(a[f(i)]); writeln('after'); if (i > 1) and_then (a[i - 1] > 0) then writeln('then'); a[f(i)] := 5; writeln('end') end.
""", """void oracle(void){ i32 i = in_i32(); o_txt("f"); IL(i); RANGE((i >= 1) & (i <= 3)); IL(i); o_txt("after"); NL; if (i > 1) { o_txt("then"); NL; } o_txt("f"); IL(i); o_txt("end"); NL; }""")
P("loops", """program p; var a : array [1..6] of integer; i, n, s : integer;
begin for i := 1 to 6 do a[i] := i * i; read(n); s := 0; for i := 1 to n do begin s := s + a[i]; writeln(s) end; writeln('up'); for i := n downto 2 do writeln(a[i]); i := 1; repeat i := i + 1 until a[i] > 8; writeln(i); writeln(s) end.
""", """void oracle(void){ i32 n = in_range(-2, 8), s = 0; for (int i = 1; i <= n; i++) { RANGE(i <= 6); s += i * i; IL(s); } o_txt("up"); NL; for (int i = n; i >= 2; i--) IL(i * i); IL(3); IL(s); }""")
P("unchecked_before", """program p; var a : array [1..4] of integer; b : array [1..4] of integer; i, j : integer;
begin for i := 1 to 4 do begin a[i] := i; b[i] := 10 * i end; read(i); read(j); writeln('x'); a[i] := b[j]; writeln(a[i]); writeln(a[1], a[2], a[3], a[4]) end.
""", """void oracle(void){ i32 i = in_i32(), j = in_i32(), a[5]; o_txt("x"); NL; RANGE((i >= 1) & (i <= 4) & (j >= 1) & (j <= 4)); IL(j * 10); for (int k = 1; k <= 4; k++) I(k == i ? j * 10 : k); NL; }""")
# ---- parameters: arrays, conformant arrays (the bounds of the actual argument) ---------------------------------------------
P("params", """program p; type t = array [3..6] of integer; var a : t; i, j : integer;
function get(x : t; i : integer) : integer; begin get := x[i] end;
procedure put(var x : t; i, v : integer); begin x[i] := v end;
procedure outer(var x : t; i : integer); var y : array [10..12] of integer; procedure inner(j : integer); begin y[j + 7] := x[j]; writeln(y[i + 7]) end; begin y[10] := 0; y[11] := 0; y[12] := 0; inner(i) end;
begin for i := 3 to 6 do a[i] := i; read(i); read(j); writeln('r'); writeln(get(a, i)); put(a, j, 9); writeln(a[j]); outer(a, i); writeln('e') end.
""", """void oracle(void){ i32 i = in_i32(), j = in_i32(); o_txt("r"); NL; RANGE((i >= 3) & (i <= 6)); IL(i); RANGE((j >= 3) & (j <= 6)); IL(9); RANGE(i + 7 <= 12); IL(j == i ? 9 : i); o_txt("e"); NL; }""")
P("conform", """program p; var a : array [3..6] of integer; b : array [-2..0] of integer; c : array ['p'..'s'] of integer; i : integer; l : longint; k : char;
procedure sv(var x : array [lo..hi : integer] of integer; i : integer); begin writeln(x[i]); x[i] := 50; writeln(x[i]) end;
procedure sl(x : array [lo..hi : integer] of integer; i : longint); begin writeln(x[i]) end;
procedure sc(x : array [lo..hi : char] of integer; c : char); begin writeln(x[c]) end;
begin for i := 3 to 6 do a[i] := i * 2; for i := -2 to 0 do b[i] := i * 3; for k := 'p' to 's' do c[k] := ord(k); read(i); read(l); read(k); writeln('r'); if odd(i) then sv(a, i) else sv(b, i); if l > 1 then sl(a, l) else sl(b, l); sc(c, k) end.
""", """void oracle(void){ i32 i = in_i32(); i64 l = in_i64(); i32 k = in_chr(); o_txt("r"); NL; if (i & 1) { RANGE((i >= 3) & (i <= 6)); IL(i * 2); } else { RANGE((i >= -2) & (i <= 0)); IL(i * 3); } IL(50); if (l > 1) { RANGE((l >= 3) & (l <= 6)); IL((i & 1) && l == i ? 50 : (i32)l * 2); } else { RANGE((l >= -2) & (l <= 0)); IL(!(i & 1) && l == i ? 50 : (i32)l * 3); } RANGE((k >= 'p') & (k <= 's')); IL(k); }""")
if __name__ == "__main__":
    run_tv("C09", progs, [["-O0", "-Cr"], ["-O2", "-Cr"], ["-O0"]] + ([["-O1", "-m32", "-Cr"], ["-O3", "-Cr"], ["-O2"]] if THOROUGH else []), max_time=60,
           bounds={"index": "every integer / longint / char value, all values of enumerations", "arrays": "1 to 3 dimensions, up to 256 elements", "options": "with and without -Cr"},
           explanation="symbolic index values; the range-error exit must happen exactly where an index leaves the declared bounds, and nothing may differ otherwise")
