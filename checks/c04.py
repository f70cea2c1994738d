"""C04: structured statements."""
from common import *
from genstmt import *

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


# ---- case -------------------------------------------------------------------------------------------------------
LABS = [("i32", "integer", "in_i32()", [("0", "0"), ("1, 2", "1,2"), ("-1", "-1"), ("-7..-3", "-7...-3"), ("5..40", "5...40"), ("-2000..-100", "-2000...-100"), ("100..133", "100...133"), ("200..231", "200...231"), ("2147483647", "2147483647"), ("-60..-10", "-60...-10"), ("1000, 2000..3000, 5000", "1000,2000...3000,5000")])]
for ow in (0, 1):
    for k, subset in enumerate([(0, 1, 2, 3), (4, 5, 6, 7), (8, 9, 10, 0), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), (2, 9, 5), (4,)]):
        L_ = LABS[0][3]
        pp, cc = "", ""
        for n, i in enumerate(subset):
            pp += "    %s: t := t + %d;\n" % (L_[i][0], n + 10)
            cc += "".join("case %s: " % x.replace("...", " ... ") for x in L_[i][1].split(",")) + "t = wadd(t, %d); break;\n" % (n + 10)
        P("case_int_%d_%d" % (k, ow), "program p; var a, t : integer; begin read(a); read(t);\n  case a of\n%s%s  end; writeln(t);\n  case a + 1 of\n%s%s  end; writeln(t)\nend.\n" % ((pp, "    otherwise t := t - 5\n" if ow else "") * 2),
          "void oracle(void){ i32 a = in_i32(), t = in_i32(); switch (a) { %s %s } IL(t); switch (wadd(a,1)) { %s %s } IL(t); }" % ((cc, "default: t = wsub(t, 5);" if ow else "") * 2))
P("case_char", """program p; var c : char; x, t : integer; begin read(x); c := chr(x); t := 0;
 case c of 'a': t := 1; 'b', 'x'..'z': t := 2; '0'..'9': t := 3 end; writeln(t);
 case c of 'A'..'Z': t := 10; chr(27): t := 11; chr(200)..chr(255): t := 12; otherwise t := 13 end; writeln(t);
 case c of chr(0)..chr(31): t := 20; ' '..'~': t := 21; chr(127): t := 22; otherwise t := 23 end; writeln(t);
 case succ(c) of 'b': t := 30; else t := 31 end; writeln(t);
 case ord(c) of 65: t := 40; 128..255: t := 41; 200+56: t := 42; else t := 43 end; writeln(t)
end.
""", """void oracle(void){ i32 c = in_range(0, 255); IL(c == 'a' ? 1 : c == 'b' || (c >= 'x' && c <= 'z') ? 2 : c >= '0' && c <= '9' ? 3 : 0);
 IL(c >= 'A' && c <= 'Z' ? 10 : c == 27 ? 11 : c >= 200 ? 12 : 13); IL(c < 32 ? 20 : c < 127 ? 21 : c == 127 ? 22 : 23); IL(c == 'a' ? 30 : 31); IL(c == 65 ? 40 : c >= 128 ? 41 : 43); }""")
P("case_enum", """program p; type col = (red, green, blue, cyan, pink, grey); var e : col; ea : array [0..5] of col; x, t : integer; q : boolean; g : green..pink;
begin ea[0] := red; ea[1] := green; ea[2] := blue; ea[3] := cyan; ea[4] := pink; ea[5] := grey; read(x); e := ea[x]; read(x); q := odd(x); read(x); g := ea[x]; t := 0;
 case e of red: t := 1; blue, pink: t := 2 end; writeln(t);
 case e of green..cyan: t := 3; otherwise t := 4 end; writeln(t);
 case q of true: t := 5; false: t := 6 end; writeln(t);
 case g of green: t := 7; blue: t := 8; cyan: t := 9; pink: t := 10 end; writeln(t);
 case e of red: case q of false: t := 20; true: begin t := 21; if g = cyan then t := 22 end end; green: if q then t := 23 else t := 24; otherwise begin end end; writeln(t);
 case (e > blue) of true: t := t + 1; false: t := t - 1 end; writeln(t);
 case q and (g = blue) of true: writeln('both'); otherwise writeln('not') end
end.
""", """void oracle(void){ i32 e = in_range(0,5), q = in_i32() & 1, g = in_range(1,4); IL(e == 0 ? 1 : e == 2 || e == 4 ? 2 : 0); IL(e >= 1 && e <= 3 ? 3 : 4); IL(q ? 5 : 6); IL(g + 6);
 i32 t = g + 6; if (e == 0) t = q ? (g == 3 ? 22 : 21) : 20; else if (e == 1) t = q ? 23 : 24; IL(t); t += e > 2 ? 1 : -1; IL(t); o_txt(q && g == 2 ? "both" : "not"); NL; }""")
P("case_long", """program p; var l : longint; s : 0..200; n : -50..50; t : integer; begin read(l); read(s); read(n); t := 0;
 case l of 1: t := 1; -1: t := 2; 100..120: t := 3; 1000..100000: t := 4; otherwise t := 5 end; writeln(t);
 case s of 0: t := 1; 1..100: t := 2; 150..200: t := 3 end; writeln(t);
 case n of -50..-1: t := 1; 0: t := 2; 1..50: t := 3 end; writeln(t)
end.
""", """void oracle(void){ i64 l = in_i64(); i32 s = in_range(0,200), n = in_range(-50,50); IL(l == 1 ? 1 : l == -1 ? 2 : l >= 100 && l <= 120 ? 3 : l >= 1000 && l <= 100000 ? 4 : 5);
 i32 t = l == 1 ? 1 : l == -1 ? 2 : l >= 100 && l <= 120 ? 3 : l >= 1000 && l <= 100000 ? 4 : 5; t = s == 0 ? 1 : s <= 100 ? 2 : s >= 150 ? 3 : t; IL(t); IL(n < 0 ? 1 : n == 0 ? 2 : 3); }""")
P("case_const", """program p; const lo = -3; hi = 4; mid = (lo + hi) * 2; c0 = 'k'; var a, t : integer; c : char; begin read(a); read(c); t := 0;
 case a of lo: t := 1; hi: t := 2; mid: t := 3; lo * 10 .. lo * 5: t := 4; -mid: t := 5; hi + 10, hi + 12 .. hi + 20: t := 6 end; writeln(t);
 case c of c0: writeln('k'); 'l': writeln('l'); otherwise writeln('?') end;
 case a mod 3 of 0: writeln('zero'); 1: writeln('one'); 2: writeln('two'); -1: writeln('mone'); -2: writeln('mtwo') end
end.
""", """void oracle(void){ i32 a = in_i32(); i32 c = in_chr(); IL(a == -3 ? 1 : a == 4 ? 2 : a == 2 ? 3 : a >= -30 && a <= -15 ? 4 : a == -2 ? 5 : a == 14 || (a >= 16 && a <= 24) ? 6 : 0);
 o_txt(c == 'k' ? "k" : c == 'l' ? "l" : "?"); NL; i32 m = a % 3; o_txt(m == 0 ? "zero" : m == 1 ? "one" : m == 2 ? "two" : m == -1 ? "mone" : "mtwo"); NL; }""")
# ---- for -----------------------------------------------------------------------------------------------------------
P("for_int", """program p; var i, j, a, b, n, t : integer; begin read(a); read(b); t := 0; n := 0;
 for i := a to b do begin n := n + 1; t := t * 7 + i end; writeln(n, ' ', t);
 n := 0; for i := a downto b do begin n := n + 1; t := t * 7 - i end; writeln(n, ' ', t);
 n := 0; for i := a + 1 to b - 1 do for j := i downto a do begin n := n + 1; t := t + i * j end; writeln(n, ' ', t);
 n := 0; i := b; for i := a to i do n := n + 1; writeln(n);
 n := 0; j := b; for i := a to j do begin j := j - 1; n := n + 1 end; writeln(n, ' ', j);
 n := 0; for i := 1 to 0 do n := 1; for i := 0 downto 1 do n := 1; for i := -1 downto -1 do n := n + 5; for i := 3 to 3 do n := n + 7; writeln(n)
end.
""", """void oracle(void){ i32 a = in_range(-2, 3), b = in_range(-2, 3), t = 0, n = 0;
 for (i32 i = a; i <= b; i++) { n++; t = wadd(wmul(t,7),i); } I(n); SP; IL(t); n = 0; for (i32 i = a; i >= b; i--) { n++; t = wsub(wmul(t,7),i); } I(n); SP; IL(t);
 n = 0; for (i32 i = a + 1; i <= b - 1; i++) for (i32 j = i; j >= a; j--) { n++; t = wadd(t, i*j); } I(n); SP; IL(t);
 n = b >= a ? b - a + 1 : 0; IL(n); I(n); SP; IL(b - n); IL(12); }""")
P("for_extreme", """program p; var i, n, a : integer; l : longint; c : char; b : 0..255; k : -128..127; q : boolean; e : (r, g, u); begin read(a);
 n := 0; for i := maxint - a to maxint do n := n + 1; writeln(n);
 n := 0; for i := -maxint - 1 + a downto -maxint - 1 do n := n + 1; writeln(n);
 n := 0; for i := maxint downto maxint - a do n := n + 1; writeln(n);
 n := 0; for c := chr(255 - a) to chr(255) do n := n + ord(c); writeln(n);
 n := 0; for c := chr(a) downto chr(0) do n := n * 3 + ord(c); writeln(n);
 n := 0; for b := 255 - a to 255 do n := n + b; writeln(n);
 n := 0; for b := a downto 0 do n := n * 3 + b; writeln(n);
 n := 0; for k := 127 - a to 127 do n := n + k; writeln(n);
 n := 0; for k := -128 + a downto -128 do n := n + k; writeln(n);
 n := 0; for k := -a to a do n := n * 2 + k; writeln(n);
 n := 0; for q := false to true do n := n * 2 + ord(q) + 1; writeln(n);
 n := 0; for q := true downto false do n := n * 2 + ord(q) + 1; writeln(n);
 n := 0; for e := r to u do n := n * 4 + ord(e); writeln(n);
 n := 0; for e := u downto g do n := n * 4 + ord(e); writeln(n);
 n := 0; for l := a to a + 2 do n := n + 1; writeln(n)
end.
""", """void oracle(void){ i32 a = in_range(0, 3), n; IL(a+1); IL(a+1); IL(a+1); n = 0; for (int c = 255 - a; c < 256; c++) n += c; IL(n); n = 0; for (int c = a; c >= 0; c--) n = n * 3 + c; IL(n);
 n = 0; for (int c = 255 - a; c < 256; c++) n += c; IL(n); n = 0; for (int c = a; c >= 0; c--) n = n * 3 + c; IL(n);
 n = 0; for (int c = 127 - a; c <= 127; c++) n += c; IL(n); n = 0; for (int c = -128 + a; c >= -128; c--) n += c; IL(n); n = 0; for (int c = -a; c <= a; c++) n = n * 2 + c; IL(n);
 IL(1 * 2 + 2); IL(2 * 2 + 1); IL(0 * 16 + 1 * 4 + 2); IL(2 * 4 + 1); IL(3); }""")
P("for_mixed", """program p; var i, n, a : integer; s : 0..100; m : -100..100; l : longint; c, d : char; u : 1..12;
begin read(a); s := a; m := -a; n := 0;
 for i := s downto m do n := n + 1; writeln(n); n := 0;
 for i := m to s do n := n * 3 + i; writeln(n); n := 0;
 for m := s downto -2 do n := n * 3 + m; writeln(n); n := 0;
 m := -a; for l := m to s do n := n + 1; writeln(n); n := 0;
 for i := m to 0 do n := n + i; writeln(n); n := 0;
 read(c); d := c; for c := d to 'd' do n := n * 5 + ord(c) - 96; writeln(n); n := 0;
 for c := 'd' downto d do n := n * 5 + ord(c) - 96; writeln(n); n := 0;
 for u := a + 1 to 12 do n := n + u; writeln(n); n := 0;
 for i := ord('a') to ord(d) do n := n + 1; writeln(n)
end.
""", """void oracle(void){ i32 a = in_range(0, 4), n = 0; IL(2 * a + 1); for (int i = -a; i <= a; i++) n = n * 3 + i; IL(n); n = 0; for (int i = a; i >= -2; i--) n = n * 3 + i; IL(n);
 i32 c = in_chr(); ASSUME((c >= 'a') & (c <= 'f')); 
 IL(2 * a + 1); n = 0; for (int i = -a; i <= 0; i++) n += i; IL(n); n = 0; for (int k = c; k <= 'd'; k++) n = n * 5 + k - 96; IL(n); n = 0; for (int k = 'd'; k >= c; k--) n = n * 5 + k - 96; IL(n);
 n = 0; for (int u = a + 1; u <= 12; u++) n += u; IL(n); IL(c - 'a' + 1); }""")
P("for_once", """program p; var i, n, cnt, a : integer;
function lim(x : integer) : integer; begin cnt := cnt + 1; lim := x end;
begin read(a); cnt := 0; n := 0;
 for i := lim(1) to lim(a) do n := n + i; writeln(n, ' ', cnt);
 for i := lim(a) downto lim(2) do begin n := n + i; a := 0 end; writeln(n, ' ', cnt)
end.
""", """void oracle(void){ i32 a = in_range(-1, 5), n = 0; for (i32 i = 1; i <= a; i++) n += i; I(n); SP; IL(2); for (i32 i = a; i >= 2; i--) n += i; I(n); SP; IL(4); }""")
# ---- for in ---------------------------------------------------------------------------------------------------------
SETHDR = "program p; type s70 = set of 0..70; col = (red, green, blue, cyan); sc = set of char; var s : s70; i, n, x, a : integer; e : col; se : set of col; c : char; k : sc;\nbegin read(a); s := [a, 5, 31, 32, 63, 64]; n := 0;\n"
SETC = """void oracle(void){ i32 a = in_range(0, 70); u8 m[71] = {0}; m[5] = m[31] = m[32] = m[63] = m[64] = 1; int n = 0;
#define IN(i) (m[i] | (i == a))
"""
P("forin_set1", SETHDR + """ for i in s do n := n * 3 + i; writeln(n);
 n := 0; for i in s - [a] do n := n * 3 + i; writeln(n) end.
""", SETC + """ for (int i = 0; i <= 70; i++) { int z = wadd(wmul(n, 3), i); n = IN(i) ? z : n; } IL(n); n = 0; for (int i = 0; i <= 70; i++) { int z = wadd(wmul(n, 3), i); n = (IN(i) & (i != a)) ? z : n; } IL(n); }""", max_time=100)
P("forin_set2", SETHDR + """ for i in s do if odd(i) then n := n + i else if i > 33 then n := n - 1; writeln(n);
 n := 0; for i in s do begin x := i; while x > 10 do begin x := x - 30; n := n + 1 end end; writeln(n) end.
""", SETC + """ for (int i = 0; i <= 70; i++) n = IN(i) ? ((i & 1) ? n + i : i > 33 ? n - 1 : n) : n; IL(n);
 n = 0; for (int i = 0; i <= 70; i++) n += IN(i) ? (i > 10 ? (i - 10 + 29) / 30 : 0) : 0; IL(n); }""", max_time=100)
P("forin_set3", SETHDR + """ for i in s do for x := 1 to 2 do n := n * 2 + i; writeln(n) end.
""", SETC + """ for (int i = 0; i <= 70; i++) { int z = wadd(wmul(wadd(wmul(n, 2), i), 2), i); n = IN(i) ? z : n; } IL(n); }""", max_time=100)
P("forin_set4", SETHDR + """ se := []; n := 9; for e in se do n := 0; writeln(n); se := [green, cyan]; if a > 20 then se := se + [red]; n := 0; for e in se do n := n * 4 + ord(e) + 1; writeln(n);
 k := ['b', 'z', chr(0), chr(255)]; n := 0; for c in k do n := n * 3 + ord(c); writeln(n);
 n := 0; for c in k do case c of 'b': n := n + 1; 'z': n := n + 10; otherwise n := n + 100 end; writeln(n);
 n := 0; for i in [1, 3, 7] do n := n * 10 + i; writeln(n)
end.
""", """void oracle(void){ i32 a = in_range(0, 70); IL(9); IL(a > 20 ? 1 * 16 + 2 * 4 + 4 : 2 * 4 + 4); IL(((0 * 3 + 98) * 3 + 122) * 3 + 255); IL(211); IL(137); }""", max_time=100)
P("forin_neg", """program p; type s = set of -20..40; var x : s; i, n, a : integer; begin read(a); x := [a, -20, -1, 0, 11, 40]; n := 0; for i in x do n := n * 5 + i; writeln(n); writeln(card(x):1) end.
""", """void oracle(void){ i32 a = in_range(-20, 40), n = 0, k = 0; for (int i = -20; i <= 40; i++) { int z = wadd(wmul(n, 5), i); int in = (i == a) | (i == -20) | (i == 40) | (i == 0) | (i == -1) | (i == 11); n = in ? z : n; k += in; } IL(n); o_int(k, 1); NL; }""", max_time=100)
P("forin_arr", """program p; type col = (red, green, blue); var a : array [1..4] of integer; c : array [-2..1] of char; e : array [col] of longint; i, n, x : integer; k : char; l : longint; q : array [char] of boolean; z : boolean; r : array [0..2] of real; rv, sum : real;
begin for i := 1 to 4 do read(a[i]); for i := -2 to 1 do begin read(x); c[i] := chr(x) end; e[red] := a[1]; e[green] := 5; e[blue] := a[2]; n := 0;
 for i in a do n := n * 3 + i; writeln(n); n := 0;
 for k in c do n := n * 3 + ord(k); writeln(n);
 l := 0; n := 0; for l in e do n := n + ord(l > 4); writeln(n);
 n := 0; for i in a do begin if i > 0 then n := n + 1; for x := 1 to 2 do if i > x then n := n + 10 end; writeln(n);
 n := 0; for i in a do if i > 3 then begin n := n + 1; a[4] := -1 end; writeln(n);
 r[0] := 1.5; r[1] := 2.5; r[2] := -1; sum := 0; for rv in r do sum := sum + rv; writeln(sum:5:2)
end.
""", """void oracle(void){ i32 a[5], c[4], n = 0; for (int i = 1; i <= 4; i++) a[i] = in_range(-3, 6); for (int i = 0; i < 4; i++) c[i] = in_range(0, 255);
 for (int i = 1; i <= 4; i++) n = n * 3 + a[i]; IL(n); n = 0; for (int i = 0; i < 4; i++) n = n * 3 + c[i]; IL(n); IL((a[1] > 4) + 1 + (a[2] > 4));
 n = 0; for (int i = 1; i <= 4; i++) n += (a[i] > 0) + 10 * (a[i] > 1) + 10 * (a[i] > 2); IL(n); n = 0; for (int i = 1; i <= 3; i++) { if (a[i] > 3) { n++; a[4] = -1; } } if (a[4] > 3) n++; IL(n); o_real(3.0, 5, 2); NL; }""", max_time=100)
# ---- while, repeat, goto ------------------------------------------------------------------------------------------------
P("loops", """program p; var a, b, n, t : integer; c : char; begin read(a); read(b); n := 0; t := 0;
 while a < b do begin a := a + 2; n := n + 1; if a = 3 then t := t + 100 end; writeln(a, ' ', b, ' ', n, ' ', t);
 repeat a := a - 1; n := n + 1; t := t + a until a <= b - 3; writeln(a, ' ', n, ' ', t);
 while false do n := 99; repeat n := n + 1 until true; writeln(n);
 while a < 4 do repeat a := a + 1; while (b > 0) and (t < 50) do begin b := b - 1; t := t + 5 end until odd(a); writeln(a, ' ', b, ' ', t);
 repeat begin end until a > 0; while (a > 0) and (n > 0) do begin a := a - 1; n := n - 1; repeat t := t + 1 until true end; writeln(t);
 if a > b then if a > t then writeln('x') else writeln('y') else begin end; if a > b then begin if a > t then writeln('x') end else writeln('z')
end.
""", """void oracle(void){ i32 a = in_range(-3, 4), b = in_range(-3, 4), n = 0, t = 0; while (a < b) { a += 2; n++; if (a == 3) t += 100; } I(a); SP; I(b); SP; I(n); SP; IL(t);
 do { a--; n++; t += a; } while (!(a <= b - 3)); I(a); SP; I(n); SP; IL(t); n++; IL(n);
 while (a < 4) do { a++; while ((b > 0) & (t < 50)) { b--; t += 5; } } while (!(a & 1)); I(a); SP; I(b); SP; IL(t); while ((a > 0) & (n > 0)) { a--; n--; t++; } IL(t);
 if (a > b) { if (a > t) o_txt("x"); else o_txt("y"); NL; } if (a > b) { if (a > t) { o_txt("x"); NL; } } else { o_txt("z"); NL; } }""", max_time=100)
P("goto", """program p; label 1, 2, 3, 99; var a, b, n : integer;
procedure q(x : integer); label 5, 6; begin 5: if x <= 0 then goto 6; n := n * 3 + x; x := x - 1; goto 5; 6: n := n + 1000 end;
begin read(a); read(b); n := 0;
 1: if a > 0 then begin a := a - 1; n := n + 1; goto 1 end;
 if b > 1 then goto 2; n := n + 10; goto 3;
 2: n := n + 100; b := b - 1; goto 1;
 3: writeln(a, ' ', b, ' ', n); q(b); q(2); writeln(n);
 for a := 1 to 5 do begin if a = b + 3 then goto 99; n := n + a end; writeln('end');
 99: writeln(n)
end.
""", """static i32 n; static void q(i32 x){ while (x > 0) { n = n * 3 + x; x--; } n += 1000; }
void oracle(void){ i32 a = in_range(-1, 3), b = in_range(-2, 3); n = a > 0 ? a : 0; while (b > 1) { n += 100; b--; } n += 10; I(a > 0 ? 0 : a); SP; I(b); SP; IL(n); q(b); q(2); IL(n);
 for (int i = 1; i <= 5; i++) { if (i == b + 3) { IL(n); return; } n += i; } o_txt("end"); NL; IL(n); }""")
P("dangling", """program p; var a, b, c, t : integer; begin read(a); read(b); read(c); t := 0;
 if a > 0 then if b > 0 then t := 1 else t := 2; writeln(t);
 if a > 0 then if b > 0 then if c > 0 then t := 3 else t := 4 else t := 5 else t := 6; writeln(t);
 if a > 0 then while b > 5 do begin b := b - 100; t := 7 end else t := 8; writeln(t);
 if a > 0 then for t := 1 to 3 do if c > t then b := b + 1 else b := b - 1; writeln(b);
 if a > 0 then case b of 1: if c > 0 then t := 9 else t := 10; 2: t := 11 end else t := 12; writeln(t);
 if a > 0 then begin if b > 0 then t := 13 end else t := 14; writeln(t);
 if a > 0 then with_ else t := 15
end.
""".replace(" if a > 0 then with_ else t := 15\n", " if a > 0 then repeat t := t + 1 until t > 20 else if b > 0 then t := 16 else if c > 0 then t := 17; writeln(t)\n"),
  """void oracle(void){ i32 a = in_i32(), b = in_range(-10, 90), c = in_i32(), t = 0; if (a > 0) { if (b > 0) t = 1; else t = 2; } IL(t);
 if (a > 0) { if (b > 0) { if (c > 0) t = 3; else t = 4; } else t = 5; } else t = 6; IL(t); if (a > 0) { if (b > 5) { b -= 100; t = 7; } } else t = 8; IL(t);
 int u = t; if (a > 0) { for (t = 1; t <= 3; t++) b += c > t ? 1 : -1; } IL(b); 
 if (a > 0) ASSUME((b == 1) | (b == 2));
 if (a > 0) { if (b == 1) t = c > 0 ? 9 : 10; else t = 11; } else t = 12; IL(t); if (a > 0) { if (b > 0) t = 13; } else t = 14; IL(t);
 if (a > 0) { do t++; while (!(t > 20)); } else if (b > 0) t = 16; else if (c > 0) t = 17; IL(t); }""")
# ---- random nests -------------------------------------------------------------------------------------------------------
for k in range(120 if THOROUGH else 30):
    progs.append(random_stmt_prog("random_%d" % k, RND, Prog, depth=RND.choice([2, 3, 3, 4]), nstmt=3, nin=RND.choice([2, 2, 3])))

if __name__ == "__main__":
    run_tv("C04", progs, [["-O0"], ["-O2"], ["-O1", "-m32"]] + ([["-O3"], ["-O1", "-Cr"], ["-O0", "-m32"], ["-O1", "-g"]] if THOROUGH else []), max_time=40 if not THOROUGH else 120,
           bounds={"case selectors": "all values of integer, longint, char, enumeration, boolean and subrange selectors", "loop limits": "symbolic, up to 8 iterations per loop, at both ends of the type's range",
                   "sets and arrays in for-in": "two arbitrary members in a 71-element set, 4-element arrays", "random nests": "depth <= 4, 2-3 inputs in -4..9"},
           explanation="every compiled program is executed symbolically at LLVM-IR level, with a trace of the statements executed as its output, and compared with an independent C statement of the result")
