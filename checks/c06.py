"""C06: set operations are mathematical set operations."""
from common import *

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


# base types: name, declaration, low, high, integer -> element, extra range [low, high] of the second base (same host type)
BASE = [("low", "0..9", 0, 9, "%s"), ("neg", "-5..6", -5, 6, "%s"), ("one", "1..32", 1, 32, "%s"), ("w2", "0..40", 0, 40, "%s"), ("negw", "-20..50", -20, 50, "%s"),
        ("far", "1000..1070", 1000, 1070, "%s"), ("farneg", "-3000..-2960", -3000, -2960, "%s"), ("edge", "33..64", 33, 64, "%s"), ("w64", "0..63", 0, 63, "%s"),
        ("char", "char", 0, 255, "chr(%s)"), ("lett", "'a'..'z'", 97, 122, "chr(%s)"), ("hich", "chr(200)..chr(255)", 200, 255, "chr(%s)"),
        ("enum", "col", 0, 6, "ec[%s]"), ("esub", "green..cyan", 1, 3, "ec[%s]"), ("bool", "boolean", 0, 1, "eb[%s]"), ("big", "0..255", 0, 255, "%s"),
        ("max", "0..511", 0, 511, "%s"), ("negbig", "-256..255", -256, 255, "%s")]
HEAD = """program p;
type col = (red, green, blue, cyan, pink, grey, black); el = %(dec)s; st = set of el;
var ec : array [0..6] of col; eb : array [0..1] of boolean; g1 : integer; s, t, u, v : st; g2 : integer; x, y, z, w, i : integer; e : el;
procedure show(s : st);
var i, n, k : integer;
begin
 n := 0; k := 0;
 for i := %(lo)d to %(hi)d do begin n := n * 2 + ord(%(cvi)s in s); k := k + 1; if k = 28 then begin write(n, ' '); n := 0; k := 0 end end;
 writeln(n)
end;
begin
 ec[0] := red; ec[1] := green; ec[2] := blue; ec[3] := cyan; ec[4] := pink; ec[5] := grey; ec[6] := black; eb[0] := false; eb[1] := true; g1 := 123; g2 := 456;
"""
CH = """#define LO (%(lo)d)
#define N (%(n)d)
typedef struct { u8 m[N]; } set;
static void show(set s) { i32 n = 0; int k = 0; for (int i = 0; i < N; i++) { n = wadd(wmul(n, 2), s.m[i]); if (++k == 28) { I(n); SP; n = 0; k = 0; } } IL(n); }
static set mt(void) { set s; memset(&s, 0, sizeof s); return s; }
static set one(i32 x) { set s; for (int i = 0; i < N; i++) s.m[i] = (i + LO == x); return s; }
static set rng(i32 x, i32 y) { set s; for (int i = 0; i < N; i++) s.m[i] = (i + LO >= x) & (i + LO <= y); return s; }
static set un(set a, set b) { for (int i = 0; i < N; i++) a.m[i] |= b.m[i]; return a; }
static set is(set a, set b) { for (int i = 0; i < N; i++) a.m[i] &= b.m[i]; return a; }
static set df(set a, set b) { for (int i = 0; i < N; i++) a.m[i] &= !b.m[i]; return a; }
static set sd(set a, set b) { for (int i = 0; i < N; i++) a.m[i] ^= b.m[i]; return a; }
static int le(set a, set b) { u8 r = 1; for (int i = 0; i < N; i++) r &= !a.m[i] | b.m[i]; return r; }
static int eq(set a, set b) { return le(a, b) & le(b, a); }
static int card(set a) { int n = 0; for (int i = 0; i < N; i++) n += a.m[i]; return n; }
static int has(set a, i32 x) { u8 r = 0; for (int i = 0; i < N; i++) r |= (i + LO == x) & a.m[i]; return r; }
"""
for name, dec, lo, hi, cv in BASE:
    n = hi - lo + 1
    d = dict(dec=dec, lo=lo, hi=hi, cvi=cv % "i", n=n)
    X, Y, Z, W = (cv % c for c in "xyzw")
    big = n > 128
    B1 = " read(x); read(y); read(z); read(w); "
    R = "i32 x = in_range(LO, LO + N - 1), y = in_range(LO, LO + N - 1), z = in_range(LO, LO + N - 1), w = in_range(LO, LO + N - 1); "
    R2 = "i32 x = in_range(LO, LO + N - 1), y = in_range(LO, LO + N - 1); "
    C = CH % d
    if not big:
        # constructors with single elements, union/difference/intersection/symmetric difference, assignment, equality
        P("ops_" + name, HEAD % d + B1 + """
 s := [%(X)s, %(Y)s]; t := [%(Z)s, %(W)s]; u := s + t; show(u); show(s * t); show(s - t); show(s >< t); show(s);
 u := u - [%(Y)s]; show(u); v := s; s := s - [%(X)s]; show(v); show(s); show((v + t) * [%(X)s, %(Z)s] - [%(W)s] + []); show(v - v); writeln(g1, g2)
end.
""" % dict(X=X, Y=Y, Z=Z, W=W), C + "void oracle(void){ " + R + """set s = un(one(x), one(y)), t = un(one(z), one(w)), u = un(s, t), v; show(u); show(is(s, t)); show(df(s, t)); show(sd(s, t)); show(s);
 u = df(u, one(y)); show(u); v = s; s = df(s, one(x)); show(v); show(s); show(df(is(un(v, t), un(one(x), one(z))), one(w))); show(mt()); I(123); IL(456); }""")
        P("rel_" + name, HEAD % d + B1 + """
 s := [%(X)s, %(Y)s]; t := [%(Z)s, %(W)s, %(X)s]; writeln(ord(s = t):1); writeln(ord(s <> t):1); writeln(ord(s <= t):1); writeln(ord(t <= s):1); writeln(ord(s >= t):1);
 writeln(ord(t <> []):1); writeln(ord([%(Z)s] <= s):1); writeln(ord([] <= s):1)
end.
""" % dict(X=X, Y=Y, Z=Z, W=W), C + "void oracle(void){ " + R + """set s = un(one(x), one(y)), t = un(un(one(z), one(w)), one(x));
 int sub = (y == x) | (y == z) | (y == w), sup = ((z == x) | (z == y)) & ((w == x) | (w == y));
 int r[8] = { sub & sup, !(sub & sup), sub, sup, sup, 1, has(s, z), 1 };
 for (int i = 0; i < 8; i++) { o_int(r[i], 1); NL; } }""")
        P("relx_" + name, HEAD % d + " read(x); read(y); read(z); w := z; " + """
 s := [%(X)s, %(Y)s]; t := [%(X)s, %(Z)s]; writeln(ord(s * t <= t):1); writeln(ord(s - t = []):1); writeln(ord(s >= [%(Z)s]):1); writeln(ord(s + t >= t):1); writeln(ord(s >< t = (s - t) + (t - s)):1);
 writeln(ord(%(Z)s in s):1); writeln(ord(%(Z)s in t - [%(X)s]):1); writeln(ord(%(Z)s in [%(X)s, %(Y)s]):1); writeln(ord(not (%(Y)s in t)):1)
end.
""" % dict(X=X, Y=Y, Z=Z, W=W), C + "void oracle(void){ i32 x = in_range(LO, LO + N - 1), y = in_range(LO, LO + N - 1), z = in_range(LO, LO + N - 1); " + """
 int r[9] = { 1, (y == x) | (y == z), (z == x) | (z == y), 1, 1, (z == x) | (z == y), (z != x), (z == x) | (z == y), (y != x) & (y != z) };
 for (int i = 0; i < 9; i++) { o_int(r[i], 1); NL; } }""")
        P("card_" + name, HEAD % d + " read(x); read(y); read(z); " + """
 s := [%(X)s, %(Y)s]; t := [%(Z)s, %(X)s]; writeln(card(s):1); writeln(card(s + t):1); writeln(card(t - s):1); u := []; writeln(card(u):1); writeln(card(u + [%(X)s, %(Z)s, %(X)s]):1)
end.
""" % dict(X=X, Y=Y, Z=Z), C + "void oracle(void){ i32 x = in_range(LO, LO + N - 1), y = in_range(LO, LO + N - 1), z = in_range(LO, LO + N - 1); " + """
 int r[5] = { 1 + (x != y), 1 + (x != y) + ((z != x) & (z != y)), (z != x) & (z != y), 0, 1 + (x != z) };
 for (int i = 0; i < 5; i++) { o_int(r[i], 1); NL; } }""")
    if big and not THOROUGH:  # the wide bases: a shorter program; the full set of operations in the thorough tier
        P("wide_" + name, HEAD % d + " read(x); read(y); w := %(lo)d + %(n)d div 2; z := w + 3; " % d + """
 s := [%(X)s, %(Y)s]; t := [%(W)s .. %(Z)s, %(X)s]; u := s - t; writeln(ord(%(Y)s in u):1, ord(%(X)s in u):1, ord(%(W)s in u):1); writeln(ord(s <= t):1); u := s * t; writeln(ord(%(X)s in u):1, ord(%(Y)s in u):1); writeln(ord(s = u):1); u := t >< [%(Y)s]; writeln(ord(%(W)s in u):1, ord(%(X)s in u):1); writeln(card(s):1); writeln(g1, g2)
end.
""" % dict(X=X, Y=Y, Z=Z, W=W), C + "#define MB(b) o_int(b, 1)\nvoid oracle(void){ " + R2 + """i32 w = LO + N / 2, z = w + 3; int xt = 1, yt = (y == x) | ((y >= w) & (y <= z)); MB(!yt); MB(0); MB(0); NL; MB(yt); NL; MB(1); MB(yt); NL; MB(yt); NL; MB(y != w); MB(x != y); NL; MB(1 + (x != y)); NL; I(123); IL(456); }""")
        continue
    # ranges in constructors (also empty ones); limited length because every length is a path
    lim = min(n - 1, 3 if big else 6 if n <= 40 else 4)
    E = "" if n <= 10 else "ASSUME((y - x <= %d) & (y - x >= -2)); ASSUME((w - z <= 2) & (w - z >= -1)); " % lim
    P("rng_" + name, HEAD % d + B1 + """
 s := [%(X)s .. %(Y)s]; show(s); t := [%(Z)s .. %(W)s, %(X)s]; show(t); writeln(ord(%(Z)s in s):1); writeln(card(s):1); show(s + t); writeln(ord(%(Z)s in [%(X)s .. %(Y)s]):1); writeln(ord(s = [%(X)s .. %(Y)s]):1); writeln(g1, g2)
end.
""" % dict(X=X, Y=Y, Z=Z, W=W), C + "void oracle(void){ " + R + E + """set s = rng(x, y), t = un(rng(z, w), one(x)); show(s); show(t); o_int(has(s, z), 1); NL; o_int(card(s), 1); NL; show(un(s, t)); o_int((x <= z) & (z <= y), 1); NL; o_int(1, 1); NL; I(123); IL(456); }""")
    # whole set symbolic: built element by element from 32 random bits
    P("word_" + name, HEAD % d + """
 s := []; t := []; read(x); for i := 0 to %(m)d do if false then s := [] else begin end; read(x); read(y);
 for i := %(lo)d to %(hi)d do begin e := %(cvi)s; s := s + [e]; if odd(i) then t := t + [e] end;
 show(s); show(t); u := s - t; show(u); s := s - [%(X)s]; show(s); t := t >< [%(X)s, %(Y)s]; show(t); writeln(card(s):1); writeln(card(t):1); u := s * t; show(u); v := [%(a)s .. %(b)s]; show(v - t); writeln(ord(v = [%(a)s .. %(b)s]):1);
 show([%(a)s, %(b)s] + u); writeln(ord(u <= t):1); writeln(ord(t <= u):1); writeln(g1, g2)
end.
""" % dict(d, m=3, X=X, Y=Y, a=cv % str(lo), b=cv % str(hi)), C + "void oracle(void){ in_i32(); " + R2 + """set s, t, u, v; for (int i = 0; i < N; i++) { s.m[i] = 1; t.m[i] = (i + LO) & 1; }
 show(s); show(t); show(df(s, t)); s = df(s, one(x)); show(s); t = sd(t, un(one(x), one(y))); show(t); o_int(card(s), 1); NL; o_int(card(t), 1); NL; u = is(s, t); show(u); v = rng(LO, LO + N - 1); show(df(v, t)); o_int(1, 1); NL; show(un(un(one(LO), one(LO + N - 1)), u)); o_int(1, 1); NL; o_int(le(t, u), 1); NL; I(123); IL(456); }""", max_time=90)
# ---- sets of different declared ranges over the same host type ----------------------------------------------------------
for name, d1, d2, l1, h1, l2, h2 in [("mix1", "0..10", "5..40", 0, 10, 5, 40), ("mix2", "-10..5", "0..70", -10, 5, 0, 70), ("mix3", "20..30", "25..35", 20, 30, 25, 35), ("mix4", "-40..-1", "1..40", -40, -1, 1, 40), ("mix5", "0..63", "0..64", 0, 63, 0, 64), ("mix6", "-1..31", "31..33", -1, 31, 31, 33)]:
    L, H = min(l1, l2), max(h1, h2)
    lo, hi = max(l1, l2), min(h1, h2)
    d = dict(lo=L, n=H - L + 1)
    P(name, """program p; type a = %s; b = %s; var s : set of a; t : set of b; g : integer; w : set of %d..%d; x, y, z, u, v, i : integer;
procedure show; var i, n, k : integer; begin n := 0; k := 0; for i := %d to %d do begin n := n * 2 + ord(i in w); k := k + 1; if k = 28 then begin write(n, ' '); n := 0; k := 0 end end; writeln(n) end;
begin g := 77; read(x); read(y); read(u); read(v); s := [x, y]; t := [u, v]; w := s + t; show; w := t + s; show; w := s - t; show; w := t - s; show; w := s * t; show; w := s >< t; show; writeln(ord(s = t):1); writeln(ord(s <= t):1); writeln(ord(s >= t):1); writeln(ord(s <> t):1); w := s; show; w := t; show; writeln(g)
end.
""" % (d1, d2, L, H, L, H), CH % d + """void oracle(void){ i32 x = in_range(%d,%d), y = in_range(%d,%d), u = in_range(%d,%d), v = in_range(%d,%d); set s = un(one(x), one(y)), t = un(one(u), one(v)); show(un(s, t)); show(un(s, t)); show(df(s, t)); show(df(t, s)); show(is(s, t)); show(sd(s, t));
 o_int(eq(s, t), 1); NL; o_int(le(s, t), 1); NL; o_int(le(t, s), 1); NL; o_int(!eq(s, t), 1); NL; show(s); show(t); IL(77); }""" % (l1, h1, l1, h1, l2, h2, l2, h2))
# ---- membership of any value, not only those in the base range ----------------------------------------------------------
P("anyin", """program p; var s : set of 10..75; t : set of -3..3; c : set of 'a'..'f'; x : integer; k : char; l : longint; b : 0..200;
begin s := [10, 31..45, 75]; t := [-3, 0, 3]; c := ['b', 'd'..'f']; read(x); read(k); writeln(ord(x in s):1); writeln(ord(x in t):1); writeln(ord(k in c):1); b := x and 127; writeln(ord(b in s):1); writeln(ord(b + 1 in t):1); writeln(ord(succ(k) in c):1)
end.
""", """static int s(i32 x) { return (x == 10) | ((x >= 31) & (x <= 45)) | (x == 75); } static int t(i32 x) { return (x == -3) | (x == 0) | (x == 3); } static int c(i32 k) { return (k == 'b') | ((k >= 'd') & (k <= 'f')); }
void oracle(void){ i32 x = in_i32(), k = in_chr(); ASSUME(k < 255); o_int(s(x), 1); NL; o_int(t(x), 1); NL; o_int(c(k), 1); NL; o_int(s(x & 127), 1); NL; o_int(t((x & 127) + 1), 1); NL; o_int(c(k + 1), 1); NL; }""")
P("inlit", """program p; const hi = 1000; var x, y, z : integer; k, m : char; e : (aa, bb, cc, dd); l : boolean;
begin read(x); read(y); read(z); read(k); read(m); writeln(ord(x in [1, 5..9, 12]):1); writeln(ord(x in [-5..-1, -100]):1); writeln(ord(k in ['a'..'z', '0']):1); writeln(ord(k in [m, 'x']):1); writeln(ord(not (k in ['a'..'z', 'A'..'Z', '_'])):1);
 writeln(ord(x in [hi .. hi + 1000]):1); writeln(ord(x in [y, z]):1); writeln(ord(x in [y..z]):1); e := bb; writeln(ord(e in [bb, dd]):1); writeln(ord(e in [cc..dd]):1); writeln(ord(x in []):1); writeln(ord((x > 0) in [true]):1); writeln(ord(k in [chr(200)..chr(255)]):1)
end.
""", """void oracle(void){ i32 x = in_i32(), y = in_i32(), z = in_i32(), k = in_chr(), m = in_chr(); int r[13] = { (x == 1) | ((x >= 5) & (x <= 9)) | (x == 12), ((x >= -5) & (x <= -1)) | (x == -100), ((k >= 'a') & (k <= 'z')) | (k == '0'), (k == m) | (k == 'x'), !(((k >= 'a') & (k <= 'z')) | ((k >= 'A') & (k <= 'Z')) | (k == '_')),
 (x >= 1000) & (x <= 2000), (x == y) | (x == z), (y <= x) & (x <= z), 1, 0, 0, x > 0, k >= 200 }; for (int i = 0; i < 13; i++) { o_int(r[i], 1); NL; } }""")
# ---- sets as parameters, results, components ------------------------------------------------------------------------------
P("params", """program p; type cs = set of char; rec = record n : integer; s : cs; m : integer end; var r, q : rec; a : array [1..3] of set of 0..20; i, j : integer; c, d : char; pt : ^cs;
procedure addv(s : cs; c : char); begin s := s + [c]; writeln(ord(c in s):1) end;
procedure add(var s : cs; c : char); begin s := s + [c] end;
function both(a, b : cs) : cs; begin both := a * b end;
function lit(c : char) : cs; begin lit := [c, '0'..'2'] end;
procedure count(s : cs); begin writeln(card(s):1) end;
begin read(c); read(d); r.n := 5; r.m := 6; r.s := ['a'..'d']; addv(r.s, c); writeln(ord(c in r.s):1); add(r.s, c); writeln(ord(c in r.s):1); q := r; q.s := q.s - [d]; writeln(ord(c in r.s):1, ord(c in q.s):1, ord(d in q.s):1);
 writeln(card(both(r.s, q.s)):1); writeln(card(both(r.s, lit(d))):1); count([c, d]); count(['a'..'e', c]); count([]); count(r.s + [d]); new(pt); pt^ := [c]; add(pt^, d); writeln(card(pt^):1); writeln(ord(pt^ = [d, c]):1);
 for i := 1 to 3 do a[i] := [i, i * 5]; read(i); read(j); a[i] := a[i] + [j]; for i := 1 to 3 do begin for j := 0 to 20 do write(ord(j in a[i]):1); writeln end; writeln(r.n, ' ', r.m)
end.
""", """void oracle(void){ i32 c = in_chr(), d = in_chr(); int cin = (c >= 'a') & (c <= 'd'), din = (d >= 'a') & (d <= 'd'); o_int(1, 1); NL; o_int(cin, 1); NL; o_int(1, 1); NL; o_int(1, 1); o_int(c != d, 1); o_int(0, 1); NL; int nr = 4 + !cin, d_in_r = din | (c == d); o_int(nr - d_in_r, 1); NL;
 int l = d_in_r | 0; for (int k = '0'; k <= '2'; k++) l += (c == k) & (d != k); o_int(l, 1); NL; o_int(1 + (c != d), 1); NL; o_int(5 + !((c >= 'a') & (c <= 'e')), 1); NL; o_int(0, 1); NL; o_int(nr + !d_in_r, 1); NL; o_int(1 + (c != d), 1); NL; o_int(1, 1); NL;
 i32 i = in_range(1, 3), j = in_range(0, 20); for (int a = 1; a <= 3; a++) { for (int b = 0; b <= 20; b++) o_int((b == a) | (b == a * 5) | ((a == i) & (b == j)), 1); NL; } I(5); SP; IL(6); }""")
if __name__ == "__main__":
    run_tv("C06", progs, [["-O0"], ["-O2"]] + ([["-O1", "-m32"], ["-O3"], ["-O1", "-Cr"]] if THOROUGH else []), max_time=60,
           bounds={"base types": "%d ordinal base types, sizes 2 to 512" % len(BASE), "sets": "up to 4 symbolic elements, ranges of bounded length, dense sets with 2 symbolic elements", "membership": "all integers / chars"},
           explanation="sets built from symbolic elements, combined and observed element by element; compared with boolean vectors")
