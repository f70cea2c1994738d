"""C10: built-in ordinal and numeric functions."""
from common import *

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


VARS = """program p; type col = (red, green, blue, cyan, pink); sub = -100..100; byte = 0..255; rec = record a : integer; l : longint; c : char end;
var g1, x, y, z, i, j : integer; g2 : integer; l, m, n : longint; g3 : integer; c, d : char; g4 : integer; b, q : boolean; s, t : sub; u, v : byte; e, f : col; r, w : real; a : array [1..5] of integer; al : array [1..3] of longint; rr : rec; pi : ^integer; ec : array [0..4] of col;
begin ec[0] := red; ec[1] := green; ec[2] := blue; ec[3] := cyan; ec[4] := pink; g1 := 1; g2 := 2; g3 := 3; g4 := 4;
"""
END = " writeln(g1, g2, g3, g4) end.\n"
CEND = " I(1); I(2); I(3); I(4); NL; }"


def T(name, body, orc, **kw):
    P(name, VARS + body + END, "static i32 iabs(i32 x) { return x < 0 ? wneg(x) : x; } static i64 labs_(i64 x) { return x < 0 ? wneg64(x) : x; } static int pc(u64 x, int n) { int r = 0; for (int i = 0; i < n; i++) r += (x >> i) & 1; return r; }\n"
      "#define SGN(x) (((x) > 0) - ((x) < 0))\nvoid oracle(void){ " + orc + CEND, **kw)


# ---- abs, sqr, sign --------------------------------------------------------------------------------------------------
T("abs_int", "read(x); y := abs(x); writeln(y); writeln(abs(-x)); writeln(abs(x) + 1); s := 0; writeln(abs(x and 15)); writeln(abs(5 - abs(x)));", "i32 x = in_i32(); IL(iabs(x)); IL(iabs(wneg(x))); IL(wadd(iabs(x), 1)); IL(x & 15); IL(iabs(wsub(5, iabs(x))));")
T("abs_long", "read(l); m := abs(l); writeln(m); writeln(abs(-l)); writeln(abs(l) + 1);", "i64 l = in_i64(); IL(labs_(l)); IL(labs_(wneg64(l))); IL(wadd64(labs_(l), 1));")
T("abs_sub", "read(x); s := x; writeln(abs(s)); writeln(abs(-s)); u := abs(s); writeln(u); read(y); v := y; writeln(abs(v)); writeln(abs(v - 200));", "i32 s = in_range(-100, 100); IL(s < 0 ? -s : s); IL(s < 0 ? -s : s); IL(s < 0 ? -s : s); i32 v = in_range(0, 255); IL(v); IL(v < 200 ? 200 - v : v - 200);")
T("abs_real", "read(r); w := abs(r); if w = r then writeln('same') else if w = -r then writeln('neg') else writeln('nan'); writeln(ord(abs(r) >= 0):1);", "double r = in_f64(); int same = r >= 0; if (same) { o_txt(\"same\"); NL; } else if (r < 0) { o_txt(\"neg\"); NL; } else { o_txt(\"nan\"); NL; } o_int(r == r, 1); NL;")
T("sqr_int", "read(x); writeln(sqr(x)); read(i); s := i; writeln(sqr(s)); u := i + 100; writeln(sqr(u)); writeln(sqr(x + 1) - x);", "i32 x = in_i32(); IL(wmul(x, x)); i32 i = in_range(-100, 100); IL(i * i); IL((i + 100) * (i + 100)); IL(wsub(wmul(wadd(x, 1), wadd(x, 1)), x));")
T("sqr_long", "read(l); writeln(sqr(l)); m := sqr(l) + 1; writeln(m);", "i64 l = in_i64(); IL(wmul64(l, l)); IL(wadd64(wmul64(l, l), 1));")
T("sign", "read(x); writeln(sign(x)); read(l); writeln(sign(l)); read(i); s := i; writeln(sign(s)); u := i + 100; writeln(sign(u)); writeln(sign(-x)); writeln(sign(x) * 10);", "i32 x = in_i32(); IL(SGN(x)); i64 l = in_i64(); IL(SGN(l)); i32 i = in_range(-100, 100); IL(SGN(i)); IL(SGN(i + 100)); IL(SGN(wneg(x))); IL(SGN(x) * 10);")
T("sign_real", "read(r); writeln(sign(r)); writeln(sign(-r) + 1);", "double r = in_f64(); ASSUME(r == r); IL(SGN(r)); IL(-SGN(r) + 1);")
# ---- odd, ord, chr ----------------------------------------------------------------------------------------------------
T("odd", "read(x); writeln(ord(odd(x)):1); read(l); writeln(ord(odd(l)):1); read(i); s := i; writeln(ord(odd(s)):1); u := i + 100; writeln(ord(odd(u)):1, ord(odd(x + 1)):1); if odd(l) then writeln('o') else writeln('e');", "i32 x = in_i32(); o_int(x & 1, 1); NL; i64 l = in_i64(); o_int(l & 1, 1); NL; i32 i = in_range(-100, 100); o_int(i & 1, 1); NL; o_int(i & 1, 1); o_int(!(x & 1), 1); NL; if (l & 1) o_txt(\"o\"); else o_txt(\"e\"); NL;")
T("ord_int", "read(x); writeln(ord(x)); writeln(ord(-x)); read(i); s := i; writeln(ord(s)); read(c); writeln(ord(c)); y := ord(c) * 256; writeln(y); b := x > 5; writeln(ord(b)); writeln(ord(b) + ord(not b)); e := ec[i and 3]; writeln(ord(e)); writeln(ord(e = blue):1);", "i32 x = in_i32(); IL(x); IL(wneg(x)); i32 i = in_range(-100, 100); IL(i); i32 c = in_chr(); IL(c); IL(c * 256); IL(x > 5); IL(1); IL(i & 3); o_int((i & 3) == 2, 1); NL;")
T("ord_long", "read(l); m := ord(l); writeln(m);", "i64 l = in_i64(); IL(l);")
T("chr", "read(x); c := chr(x); writeln(ord(c)); y := ord(chr(x)); writeln(y); read(d); writeln(ord(chr(ord(d)))); c := chr(ord(d) div 2 + 1); writeln(ord(c)); writeln(ord(chr(x) = d):1); u := x; c := chr(u); writeln(ord(c)); read(l); c := chr(l); writeln(ord(c));", "i32 x = in_range(0, 255); IL(x); IL(x); i32 d = in_chr(); IL(d); IL(d / 2 + 1); o_int(x == d, 1); NL; IL(x); i64 l = in_range64(0, 255); IL(l);")
# ---- succ, pred, with step ---------------------------------------------------------------------------------------------
T("succ_int", "read(x); writeln(succ(x)); writeln(pred(x)); read(y); writeln(succ(x, y)); writeln(pred(x, y)); writeln(succ(pred(x))); writeln(succ(x, -3)); writeln(pred(succ(x, 5), 2));", "i32 x = in_i32(); IL(wadd(x, 1)); IL(wsub(x, 1)); i32 y = in_i32(); IL(wadd(x, y)); IL(wsub(x, y)); IL(x); IL(wsub(x, 3)); IL(wadd(x, 3));")
T("succ_long", "read(l); writeln(succ(l)); writeln(pred(l)); m := succ(succ(l)); writeln(m); writeln(succ(l) - l);", "i64 l = in_i64(); IL(wadd64(l, 1)); IL(wsub64(l, 1)); IL(wadd64(l, 2)); IL((i64)1);")
T("succ_long_step", "read(l); read(y); writeln(succ(l, y)); writeln(pred(l, 2)); writeln(succ(l, -7));", "i64 l = in_i64(); i32 y = in_i32(); IL(wadd64(l, y)); IL(wsub64(l, 2)); IL(wsub64(l, 7));")
T("succ_char", "read(c); d := succ(c); writeln(ord(d)); d := pred(c); writeln(ord(d)); writeln(ord(succ(c) > c):1); writeln(ord(succ(pred(c)) = c):1);", "i32 c = in_chr(); ASSUME((c >= 1) & (c <= 254)); IL(c + 1); IL(c - 1); o_int(1, 1); NL; o_int(1, 1); NL;")
T("succ_char_step", "read(c); read(x); d := succ(c, x); writeln(ord(d)); d := pred(c, 2); writeln(ord(d));", "i32 c = in_chr(); ASSUME((c >= 2) & (c <= 200)); i32 x = in_range(-2, 55); IL(c + x); IL(c - 2);")
T("succ_enum", "read(x); e := ec[x]; f := succ(e); writeln(ord(f)); writeln(ord(pred(f))); writeln(ord(succ(e) = f):1); if e <> red then writeln(ord(pred(e))); b := false; writeln(ord(succ(b)):1); b := succ(b); writeln(ord(b):1); b := pred(b); writeln(ord(b):1);", "i32 x = in_range(0, 3); IL(x + 1); IL(x); o_int(1, 1); NL; if (x) IL(x - 1); o_int(1, 1); NL; o_int(1, 1); NL; o_int(0, 1); NL;")
T("succ_enum_step", "read(x); e := ec[x]; read(y); f := succ(e, y); writeln(ord(f)); f := pred(f, y); writeln(ord(f));", "i32 x = in_range(0, 4), y = in_range(-4, 4); ASSUME((x + y >= 0) & (x + y <= 4)); IL(x + y); IL(x);")
T("succ_sub", "read(x); s := x; writeln(succ(s)); writeln(pred(s)); t := succ(s); writeln(t); u := x + 100; writeln(pred(u)); v := succ(u); writeln(v);", "i32 x = in_range(-99, 99); IL(x + 1); IL(x - 1); IL(x + 1); IL(x + 99); IL(x + 101);")
# ---- inc, dec: only the argument changes --------------------------------------------------------------------------------
T("inc", "read(x); y := x; inc(x); writeln(x, ' ', y); dec(y); writeln(y); read(l); inc(l); writeln(l); dec(l); dec(l); writeln(l); read(c); d := c; inc(c); dec(d); writeln(ord(c), ' ', ord(d)); read(i); s := i; inc(s); writeln(s); u := i + 100; dec(u); writeln(u); e := ec[i and 3]; inc(e); writeln(ord(e)); dec(e); writeln(ord(e));", "i32 x = in_i32(); I(wadd(x, 1)); SP; IL(x); IL(wsub(x, 1)); i64 l = in_i64(); IL(wadd64(l, 1)); IL(wsub64(l, 1)); i32 c = in_chr(); ASSUME((c > 0) & (c < 255)); I(c + 1); SP; IL(c - 1); i32 i = in_range(-99, 99); IL(i + 1); IL(i + 99); IL((i & 3) + 1); IL(i & 3);")
T("inc_place", "for i := 1 to 5 do a[i] := i * 10; for i := 1 to 3 do al[i] := i * 100; rr.a := 7; rr.l := 8; rr.c := 'a'; new(pi); pi^ := 9; read(i); inc(a[i]); dec(a[i div 2 + 1]); inc(rr.a); dec(rr.l); inc(rr.c); inc(pi^); inc(al[2]); for j := 1 to 5 do writeln(a[j]); writeln(rr.a, ' ', rr.l, ' ', ord(rr.c), ' ', pi^, ' ', al[1], ' ', al[2], ' ', al[3]);", "i32 i = in_range(1, 5); int k = i / 2 + 1; for (int j = 1; j <= 5; j++) IL(j * 10 + (j == i) - (j == k)); I(8); SP; I(7); SP; I(98); SP; I(10); SP; I(100); SP; I(201); SP; IL(300);")
# ---- min, max -------------------------------------------------------------------------------------------------------------
T("minmax_int", "read(x); read(y); writeln(min(x, y)); writeln(max(x, y)); writeln(max(x, 100)); writeln(min(-5, y)); writeln(max(min(x, y), 7)); read(l); read(m); writeln(min(l, m)); writeln(max(l, m)); read(i); s := i; writeln(max(s, -s)); writeln(min(s, 5));", "i32 x = in_i32(), y = in_i32(); IL(x < y ? x : y); IL(x > y ? x : y); IL(x > 100 ? x : 100); IL(y < -5 ? y : -5); i32 t = x < y ? x : y; IL(t > 7 ? t : 7); i64 l = in_i64(), m = in_i64(); IL(l < m ? l : m); IL(l > m ? l : m); i32 i = in_range(-100, 100); IL(i < 0 ? -i : i); IL(i < 5 ? i : 5);")
T("minmax_mixed", "read(x); read(l); writeln(min(x, l)); writeln(max(l, x)); m := max(x, l); writeln(m); writeln(min(l, 7)); writeln(max(-3, l)); read(i); s := i; writeln(max(s, l)); u := i + 100; writeln(min(u, x)); writeln(max(u, s)); writeln(min(s, u));", "i32 x = in_i32(); i64 l = in_i64(); IL(x < l ? x : l); IL(x > l ? x : l); IL(x > l ? x : l); IL(l < 7 ? l : 7); IL(l > -3 ? l : -3); i32 s = in_range(-100, 100); IL(s > l ? s : l); i32 u = s + 100; IL(u < x ? u : x); IL(u > s ? u : s); IL(u < s ? u : s);")
T("minmax_real", "read(r); read(w); read(x); writeln(ord(max(r, w) = r):1, ord(max(r, w) = w):1); writeln(ord(min(r, w) = r):1, ord(min(r, w) = w):1); writeln(ord(max(r, x) >= x):1, ord(min(x, r) <= r):1);", "double r = in_f64(), w = in_f64(); i32 x = in_i32(); ASSUME((r == r) & (w == w)); o_int(r >= w, 1); o_int(w >= r, 1); NL; o_int(r <= w, 1); o_int(w <= r, 1); NL; o_int(1, 1); o_int(1, 1); NL;")
# ---- popcnt ----------------------------------------------------------------------------------------------------------------
T("popcnt", "read(x); writeln(popcnt(x)); read(c); writeln(popcnt(ord(c))); writeln(popcnt(x and 255)); read(i); u := i; writeln(popcnt(u)); writeln(popcnt(7)); writeln(popcnt(x) + 1);", "i32 x = in_i32(); IL(pc((u32)x, 32)); i32 c = in_chr(); IL(pc(c, 8)); IL(pc(x & 255, 8)); i32 i = in_range(0, 255); IL(pc(i, 8)); IL(3); IL(pc((u32)x, 32) + 1);")
T("popcnt_long", "read(l); writeln(popcnt(l)); x := popcnt(l and 1023); writeln(x);", "i64 l = in_i64(); IL(pc((u64)l, 64)); IL(pc(l & 1023, 10));")
# ---- trunc, round, int, frac ---------------------------------------------------------------------------------------------------
T("trunc", "read(x); r := x; writeln(trunc(r)); writeln(round(r)); writeln(ord(int(r) = r):1);", "i32 x = in_i32(); IL(x); IL(x); o_int(1, 1); NL;")
T("trunc_frac", "read(x); r := x / 2; writeln(trunc(r)); writeln(round(r)); writeln(trunc(-r)); writeln(round(-r)); w := int(r); writeln(trunc(w)); r := x / 4; writeln(trunc(r)); writeln(round(r)); writeln(trunc(int(r)));", """i32 x = in_range(-20000, 20000); i32 h = x / 2, o = x % 2; IL(h); IL(h + o); IL(-h); IL(-(h + o)); IL(h); i32 q = x / 4, m = x % 4; IL(q); IL(q + (m >= 2) - (m <= -2)); IL(q);""")
# ---- length, random, ... ---------------------------------------------------------------------------------------------------------
P("length", "program p; var s : string; t : string[5]; c : char; i : integer; begin read(s); writeln(length(s)); t := 'abc'; writeln(length(t)); t := ''; writeln(length(t)); writeln(length('hello')); s := s + 'x'; writeln(length(s)); i := length(s) * 2 - 1; writeln(i); writeln(length(s + s + 'ab')); c := 'q'; writeln(length(c)); writeln(length(''), length('a'):2) end.\n", "void oracle(void){ unsigned char b[8]; int n = in_str(b, 6); IL(n); IL(3); IL(0); IL(5); IL(n + 1); IL(2 * n + 1); IL(2 * n + 4); IL(1); o_int(0, 0); o_int(1, 2); NL; }")
P("calls", """program p; var k, x : integer; r : real;
function f : integer; begin k := k + 1; f := x end;
begin k := 0; read(x); writeln(abs(f), ' ', k); writeln(sqr(f and 15), ' ', k); writeln(max(f, f + 1), ' ', k); writeln(min(f, 0), ' ', k); writeln(sign(f), ' ', k); writeln(succ(f), ' ', k); writeln(ord(odd(f)):1, ' ', k); writeln(succ(f, f), ' ', k); r := 2.5; writeln(round(r)); writeln(trunc(r + f * 0), ' ', k); writeln(popcnt(f), ' ', k) end.
""", """#define K SP; IL(k)
void oracle(void){ i32 x = in_range(-100, 100), k = 1; I(x < 0 ? -x : x); K; k++; I((x & 15) * (x & 15)); K; k += 2; I(x + 1); K; k++; I(x < 0 ? x : 0); K; k++; I((x > 0) - (x < 0)); K; k++; I(x + 1); K; k++; o_int(x & 1, 1); K; k += 2; I(x + x); K; IL(3); k++; I(2); K; k++; int p = 0; for (int i = 0; i < 32; i++) p += ((u32)x >> i) & 1; I(p); K; }""")
P("pack", """program p; var u : array [1..10] of integer; z : packed array [1..4] of integer; y : array [3..6] of integer; c : array [1..8] of char; d : packed array [0..2] of char; i, j, g : integer; l : longint;
begin for i := 1 to 10 do u[i] := i; for i := 1 to 4 do z[i] := 0; g := 5; read(i); pack(u, i, z); for j := 1 to 4 do write(z[j], ' '); writeln; for j := 3 to 6 do y[j] := j * 10; unpack(y, u, i); for j := 1 to 10 do write(u[j], ' '); writeln; for j := 1 to 8 do c[j] := chr(96 + j); read(j); pack(c, j, d); writeln(ord(d[0]), ' ', ord(d[1]), ' ', ord(d[2])); d[1] := 'z'; unpack(d, c, j); for i := 1 to 8 do write(ord(c[i]), ' '); writeln(g) end.
""", """void oracle(void){ i32 i = in_range(1, 7); for (int j = 0; j < 4; j++) { I(i + j); SP; } NL; for (int j = 1; j <= 10; j++) { I((j >= i) & (j < i + 4) ? (j - i + 3) * 10 : j); SP; } NL; i32 j = in_range(1, 6); I(96 + j); SP; I(97 + j); SP; IL(98 + j); for (int k = 1; k <= 8; k++) { I(k == j + 1 ? 'z' : 96 + k); SP; } IL(5); }""")
P("pack_low", """program p; type col = (red, green, blue, cyan); var u : array [-3..4] of integer; z : array [1..3] of integer; v : array ['c'..'h'] of integer; w : array [1..2] of integer; i, j : integer; c : char; r : record x : integer; a : array [0..3] of integer; y : integer end;
begin for i := -3 to 4 do u[i] := i; read(i); pack(u, i, z); for j := 1 to 3 do write(z[j], ' '); writeln; z[1] := 50; z[2] := 60; z[3] := 70; unpack(z, u, i); for j := -3 to 4 do write(u[j], ' '); writeln; for c := 'c' to 'h' do v[c] := ord(c); read(c); pack(v, c, w); writeln(w[1], ' ', w[2]); w[1] := 1; w[2] := 2; unpack(w, v, c); for c := 'c' to 'h' do write(v[c], ' '); writeln end.
""", """void oracle(void){ i32 i = in_range(-3, 2); for (int j = 0; j < 3; j++) { I(i + j); SP; } NL; for (int j = -3; j <= 4; j++) { I((j >= i) & (j < i + 3) ? (j - i) * 10 + 50 : j); SP; } NL; i32 c = in_chr(); ASSUME((c >= 'c') & (c <= 'g')); I(c); SP; IL(c + 1); for (int k = 'c'; k <= 'h'; k++) { I(k == c ? 1 : k == c + 1 ? 2 : k); SP; } NL; }""")
P("sizeof", """program p; type r = record a : integer; c : char end; var x : integer; l : longint; c : char; b : boolean; a : array [1..10] of integer; q : real; s : string; t : string[10]; e : (aa, bb); st : set of 0..31; rr : r; m : array [1..3, 1..4] of char;
begin writeln(sizeof(x)); writeln(sizeof(l)); writeln(sizeof(c)); writeln(sizeof(b)); writeln(sizeof(a)); writeln(sizeof(q)); writeln(sizeof(m)); writeln(sizeof(integer)); writeln(sizeof(longint)); writeln(sizeof(char)); writeln(sizeof(real)); writeln(sizeof(rr)); writeln(sizeof(r)) end.
""", "void oracle(void){ IL(4); IL(8); IL(1); IL(1); IL(40); IL(8); IL(12); IL(4); IL(8); IL(1); IL(8); IL(8); IL(8); }")
P("halt", "program p; var x : integer; begin read(x); writeln('a'); if x = 5 then halt; if x > 5 then halt(x); writeln('b') end.\n", "void oracle(void){ i32 x = in_i32(); o_txt(\"a\"); NL; if (x == 5) o_exit(0); if (x > 5) { ASSUME(x < 256); o_exit(x); } o_txt(\"b\"); NL; }")
if __name__ == "__main__":
    run_tv("C10", progs, [["-O0"], ["-O2"], ["-O1", "-m32"], ["-O0", "-Cr"]] + ([["-O0", "-m32"], ["-O1"], ["-O3"]] if THOROUGH else []), max_time=60,
           bounds={"arguments": "all values of integer, longint, char, subranges, enumerations; reals symbolic where the function is exact", "programs": "%d" % len(progs)},
           explanation="each built-in applied to symbolic arguments of every admissible type against its definition")
