"""C02: comparisons and boolean operators."""
from common import *

RELS = ["=", "<>", "<", "<=", ">", ">="]
HEAD = """program p;
type col = (red, green, blue, cyan, pink);
     byte8 = 0..255; tiny = -100..100; wide = -1000000..1000000; letter = 'a'..'z'; warm = green..cyan;
     ip = ^integer;
     st = set of 0..95; sc = set of char; se = set of col;
     pa = packed array [1..4] of char;
var a, b, x : integer; l, m : longint; s : byte8; n : tiny; w : wide; c, d : char; t : letter; e, f : col; g : warm; q, r : boolean;
    ea : array [0..4] of col; u, v : real; p1, p2, p3 : ip;
begin
  ea[0] := red; ea[1] := green; ea[2] := blue; ea[3] := cyan; ea[4] := pink;
  read(a); read(b); read(l); read(m); read(x); s := x; read(x); n := x; read(x); w := x; read(x); c := chr(x); read(x); d := chr(x); read(x); t := chr(x);
  read(x); e := ea[x]; read(x); f := ea[x]; read(x); g := ea[x]; read(x); q := odd(x); read(x); r := odd(x); read(u); read(v);
"""
OHEAD = """void oracle(void) {
 i32 a = in_i32(), b = in_i32(); i64 l = in_i64(), m = in_i64(); i32 s = in_range(0,255), n = in_range(-100,100), w = in_range(-1000000,1000000);
 i32 c = in_range(0,255), d = in_range(0,255), t = in_range(97,122), e = in_range(0,4), f = in_range(0,4), g = in_range(1,3); i32 q = in_i32() & 1, r = in_i32() & 1;
 double u = in_f64(), v = in_f64();
"""


def prog(name, pairs, extra_p="", extra_o="", **kw):
    pas = HEAD + extra_p + "".join("  writeln(ord(%s):1);\n" % p for p, o in pairs) + "end.\n"
    orc = OHEAD + extra_o + "".join(" o_int(%s, 1); NL;\n" % o for p, o in pairs) + "}\n"
    return Prog(name, pas, orc, **kw)


progs = []
CREL = {"=": "==", "<>": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">="}
ints = [("a", "a"), ("b", "b"), ("l", "l"), ("m", "m"), ("s", "s"), ("n", "n"), ("w", "w"), ("ord(c)", "c"), ("ord(e)", "e"), ("5", "5"), ("(-3)", "-3"), ("200", "200"), ("4294967297", "4294967297ll"), ("2147483647", "2147483647")]
for i, (xp, xo) in enumerate(ints):
    xs = []
    for yp, yo in ints:
        if xp[0] in "(0123456789" and yp[0] in "(0123456789":
            continue
        if (xp, yp) in (("a", "a"),):
            continue
        for r in RELS:
            xs.append(("%s %s %s" % (xp, r, yp), "(i64)%s %s (i64)%s" % (xo, CREL[r], yo)))
    progs.append(prog("int_%d" % i, xs))
xs = []
for r in RELS:
    cr = CREL[r]
    for xp, xo, yp, yo in (("c", "c", "d", "d"), ("c", "c", "t", "t"), ("t", "t", "c", "c"), ("c", "c", "'m'", "'m'"), ("'m'", "'m'", "d", "d"), ("c", "c", "chr(200)", "200"), ("chr(128)", "128", "c", "c"), ("t", "t", "'q'", "'q'"),
                          ("e", "e", "f", "f"), ("e", "e", "g", "g"), ("g", "g", "f", "f"), ("e", "e", "blue", "2"), ("green", "1", "f", "f"), ("g", "g", "cyan", "3"), ("q", "q", "r", "r"), ("q", "q", "true", "1"), ("false", "0", "r", "r"),
                          ("succ(c)", "((c+1)&255)", "d", "d"), ("chr(s)", "s", "c", "c")):
        xs.append(("%s %s %s" % (xp, r, yp), "%s %s %s" % (xo, cr, yo)))
for i in range(0, len(xs), 40):
    progs.append(prog("ord_%d" % (i // 40), xs[i:i + 40]))
for i, (xp, xo) in enumerate([("u", "u"), ("a", "(double)a"), ("l", "(double)l"), ("1.5", "1.5"), ("s", "(double)s"), ("w", "(double)w")]):
    xs = []
    for r in RELS:
        for yp, yo in [("v", "v"), ("b", "(double)b"), ("m", "(double)m"), ("n", "(double)n"), ("(-2.25)", "-2.25")]:
            if xp != "u" and yp != "v":
                continue
            xs.append(("%s %s %s" % (xp, r, yp), "%s %s %s" % (xo, CREL[r], yo)))
            if xp == "u" and yp != "v":
                xs.append(("%s %s %s" % (yp, r, xp), "%s %s %s" % (yo, CREL[r], xo)))
    progs.append(prog("real_%d" % i, xs))
# booleans
V = [(B, "q", "q"), (B, "r", "r"), (I, "a", "a"), (I, "b", "b"), (L, "l", "l"), (I, "s", "s"), (I, "n", "n")]
for k in range(40 if THOROUGH else 10):
    g = Gen(RND, V, maxhard=0)
    xs = []
    while len(xs) < 15:
        x = g.bool(RND.choice([2, 3, 4]))
        if x.prec < 100:
            xs.append((x.p, x.c))
    progs.append(prog("bool_%d" % k, xs))
xs = []
for op, co in (("and", "&"), ("or", "|"), ("xor", "^"), ("=", "=="), ("<>", "!="), ("<", "<"), (">=", ">="), ("and_then", "&&"), ("or_else", "||")):
    for x in ("q", "not q", "(a < b)", "true", "false", "odd(a)"):
        for y in ("r", "not r", "(l > m)", "true", "(c = d)"):
            cv = {"q": "q", "not q": "(!q)", "(a < b)": "(a<b)", "true": "1", "false": "0", "odd(a)": "(a&1)", "r": "r", "not r": "(!r)", "(l > m)": "(l>m)", "(c = d)": "(c==d)"}
            xs.append(("%s %s %s" % (x, op, y), "%s %s %s" % (cv[x], co, cv[y])))
for i in range(0, len(xs), 60):
    progs.append(prog("truth_%d" % (i // 60), xs[i:i + 60]))
# short circuit: side effects of the right operand, nested, with blocks inside the operands
progs.append(Prog("shortcircuit", """program p;
var a, b, cnt : integer; q : boolean; ar : array [1..4] of integer;
function f(k : integer; v : boolean) : boolean; begin cnt := cnt * 10 + k; f := v end;
function g(k, z : integer) : boolean; begin cnt := cnt * 10 + k; if z > 5 then g := true else if z < 0 then g := z = -3 else g := odd(z) end;
begin read(a); read(b); cnt := 0; ar[1] := 5; ar[2] := 6; ar[3] := 7; ar[4] := 8;
 q := f(1, a > 0) and_then f(2, b > 0); writeln(q, ' ', cnt); cnt := 0;
 q := f(1, a > 0) or_else f(2, b > 0); writeln(q, ' ', cnt); cnt := 0;
 q := g(1, a) and_then g(2, b) or_else g(3, a - b); writeln(q, ' ', cnt); cnt := 0;
 q := g(1, a) or_else (g(2, b) and_then (f(3, a = b) or_else f(4, a < b))); writeln(q, ' ', cnt); cnt := 0;
 q := not (g(1, a) and_then g(2, b)); writeln(q, ' ', cnt); cnt := 0;
 q := (g(1, a) or_else g(2, b)) and_then (g(3, b) or_else g(4, a)); writeln(q, ' ', cnt); cnt := 0;
 q := f(1, a > 0) and f(2, b > 0); writeln(q); 
 if (a >= 1) and_then (a <= 4) and_then (ar[a] = b) then writeln('hit') else writeln('miss');
 if (a < 1) or_else (a > 4) or_else (ar[a] <> b) then writeln('miss') else writeln('hit');
 cnt := 0; while (cnt < 3) and_then (f(0, a > 7) or_else (b > cnt)) do cnt := cnt + 1; writeln(cnt);
 repeat cnt := cnt + 1 until (cnt > 5) or_else ((a > 0) and_then (cnt > b)); writeln(cnt);
 writeln(f(1, a > 3) and_then true, ' ', f(2, b > 3) or_else false)
end.
""", """static i32 cnt; static int f(i32 k, int v){ cnt = wadd(wmul(cnt,10),k); return v; }
static int g(i32 k, i32 z){ cnt = wadd(wmul(cnt,10),k); return z > 5 ? 1 : z < 0 ? z == -3 : z & 1; }
#define W o_bool(q,0); SP; IL(cnt); cnt = 0;
void oracle(void){ i32 a = in_i32(), b = in_i32(); int q; i32 ar[5] = {0,5,6,7,8}; cnt = 0;
 q = f(1, a > 0) && f(2, b > 0); W
 q = f(1, a > 0) || f(2, b > 0); W
 q = g(1, a) && g(2, b) || g(3, wsub(a, b)); W
 q = g(1, a) || (g(2, b) && (f(3, a == b) || f(4, a < b))); W
 q = !(g(1, a) && g(2, b)); W
 q = (g(1, a) || g(2, b)) && (g(3, b) || g(4, a)); W
 BL((a > 0) & (b > 0)); 
 int h = a >= 1 && a <= 4 && ar[a] == b; o_txt(h ? "hit" : "miss"); NL; o_txt(h ? "hit" : "miss"); NL;
 cnt = 0; for (;;) { if (!(cnt < 3)) break; i32 o = cnt; cnt = cnt * 10; if (!(a > 7 || b > cnt)) break; cnt++; } IL(cnt);
 do cnt++; while (!(cnt > 5 || (a > 0 && cnt > b))); IL(cnt);
 o_bool(a > 3, 0); SP; o_bool(b > 3, 0); NL; }"""))
# pointers
progs.append(prog("pointers", [(x.replace("P", "p"), y) for x, y in [
    ("P1 = P2", "0"), ("P1 <> P2", "1"), ("P1 = P3", "(a>b)"), ("P3 <> P1", "!(a>b)"), ("P3 = nil", "0"), ("P3 <> nil", "1"), ("nil = P1", "0"), ("P1^ = P2^", "a == b"), ("P3^ < P2^", "(a>b) ? a < b : 0"), ("nil <> P2", "1")]],
    "  new(p1); new(p2); p1^ := a; p2^ := b; if a > b then p3 := p1 else p3 := p2;\n"))
# sets as relations, membership
progs.append(Prog("setrel", """program p;
type col = (red, green, blue, cyan, pink); st = set of 0..70; se = set of col; sc = set of char;
var s, t : st; i, x : integer; c : char; e : se; k, k2 : sc; l : longint;
procedure mk(var z : st); var j, y : integer; begin z := []; for j := 1 to 2 do begin read(y); z := z + [y] end end;
begin mk(s); mk(t); read(x); read(c);
 writeln(ord(s = t):1); writeln(ord(s <> t):1); writeln(ord(s <= t):1); writeln(ord(s >= t):1); writeln(ord(x in s):1); writeln(ord(not (x in t)):1); writeln(ord(x in s + t):1); writeln(ord(x in s * t):1); writeln(ord(x in [3, 10..20, 69]):1);
 k := ['a'..'f', 'z']; k2 := ['b']; writeln(ord(c in k):1); writeln(ord(c in ['0'..'9', 'A'..'Z']):1); writeln(ord(k2 <= k):1); writeln(ord(k + [c] = k):1); writeln(ord([c] <= k2):1);
 e := [green, pink]; writeln(ord(green in e):1); writeln(ord(blue in e):1); writeln(ord(e <= [red..pink]):1); writeln(ord(e = []):1); writeln(ord([] <= e):1);
 writeln(ord((x in s) and (x > 5) or (c in k)):1); writeln(ord((x in s) = (x in t)):1) end.
""", """void oracle(void){ i32 a = in_range(0,70), b = in_range(0,70), c = in_range(0,70), d = in_range(0,70), x = in_range(0,70); i32 h = in_chr();
#define INS (x == a | x == b)
#define INT (x == c | x == d)
#define INK ((h >= 'a' & h <= 'f') | h == 'z')
 int le = (a == c | a == d) & (b == c | b == d), ge = (c == a | c == b) & (d == a | d == b);
 o_int(le & ge, 1); NL; o_int(!(le & ge), 1); NL; o_int(le, 1); NL; o_int(ge, 1); NL; o_int(INS, 1); NL; o_int(!INT, 1); NL; o_int(INS | INT, 1); NL; o_int(INS & INT, 1); NL; o_int(x == 3 | (x >= 10 & x <= 20) | x == 69, 1); NL;
 o_int(INK, 1); NL; o_int((h >= '0' & h <= '9') | (h >= 'A' & h <= 'Z'), 1); NL; o_int(1, 1); NL; o_int(INK, 1); NL; o_int(h == 'b', 1); NL;
 o_int(1, 1); NL; o_int(0, 1); NL; o_int(1, 1); NL; o_int(0, 1); NL; o_int(1, 1); NL; o_int((INS & x > 5) | INK, 1); NL; o_int(INS == INT, 1); NL; }"""))
# strings and character arrays
SC = """program p;
type pa = packed array [1..4] of char;
var s : string[%d]; t : string[%d]; c : char; p, q : pa; i, x : integer;
begin readln(s); readln(t); read(c); for i := 1 to 4 do read(p[i]); for i := 1 to 4 do read(q[i]);
"""
SO = """static int cmp(const u8* a, int n, const u8* b, int m) { int k = n < m ? n : m; int r = 0;
 for (int i = k - 1; i >= 0; i--) r = a[i] != b[i] ? (a[i] < b[i] ? -1 : 1) : r;
 return r ? r : n < m ? -1 : n > m; }
void oracle(void){ u8 s[8], t[8]; int n = in_str(s, %d), m = in_str(t, %d); u8 c = in_chr(), p[4], q[4]; for (int i = 0; i < 4; i++) p[i] = in_chr(); for (int i = 0; i < 4; i++) q[i] = in_chr();
"""
SPAIRS = [("s %s t", "cmp(s,n,t,m)"), ("t %s s", "cmp(t,m,s,n)"), ("s %s 'ab'", 'cmp(s,n,(u8*)"ab",2)'), ("'b' %s t", 'cmp((u8*)"b",1,t,m)'), ("s %s c", "cmp(s,n,&c,1)"), ("c %s t", "cmp(&c,1,t,m)"), ("s %s ''", "n"),
          ("s + t %s t + s", "cmp(st,n+m,ts,n+m)"), ("p %s q", "cmp(p,4,q,4)"), ("p %s 'abcd'", 'cmp(p,4,(u8*)"abcd",4)'), ("s + c %s t", "cmp(sc,n+1,t,m)")]
for k, (pp, oo) in enumerate(SPAIRS):
    for (x, y) in ((3, 4), (1, 5)) if k < 2 else ((2, 2),):
        ps = "".join("  writeln(ord(%s):1);\n" % (pp % r) for r in RELS)
        os_ = "".join(" o_int(%s %s 0, 1); NL;\n" % (oo, CREL[r]) for r in RELS)
        progs.append(Prog("str_%d_%d%d" % (k, x, y), SC % (x, y) + ps + "end.\n",
                          SO % (x, y) + " u8 st[16], ts[16], sc[16]; memcpy(st, s, n); memcpy(sc, s, n); sc[n] = c; memcpy(st + n, t, m); memcpy(ts, t, m); memcpy(ts + m, s, n);\n" + os_ + "}"))
# relations steering statements
progs.append(prog("steer", [], """  if a < b then write('1') else write('0'); if l >= a then write('1') else write('0'); if not (c = d) then write('1') else write('0'); if (a <= b) = (b >= a) then write('1') else write('0');
  if (s > n) or (q and not r) then write('1') else write('0'); if (u < v) and (v > u) then write('1') else write('0'); if e <> f then write('1') else write('0');
  q := a < b; write(q); q := not q; write(q); r := q = (a >= b); write(r); x := ord(a = b); write(x:1); x := ord(q) + ord(r); write(x:1); writeln;
""", """ o_chr('0'+(a<b)); o_chr('0'+(l>=a)); o_chr('0'+(c!=d)); o_chr('1'); o_chr('0'+(s>n || (q && !r))); o_chr('0'+(u<v)); o_chr('0'+(e!=f));
 o_bool(a<b,0); o_bool(a>=b,0); o_bool(1,0); o_int(a==b,1); o_int((a>=b)+1,1); NL;"""))

if __name__ == "__main__":
    run_tv("C02", progs, [["-O0"], ["-O2"], ["-O1", "-m32"]] + ([["-O3"], ["-O1", "-Cr"], ["-O0", "-m32"]] if THOROUGH else []),
           bounds={"ordinals": "all values of each type, all pairs of 14 integer-like operand kinds and 19 char/enum/boolean pairs x 6 operators", "reals": "all doubles incl. NaN, infinities",
                   "sets": "set of 0..70 with up to two arbitrary members on either side, char and enumeration sets", "strings": "lengths 0..5, all contents without line ends; 4-character arrays",
                   "boolean": "random expressions to depth 4, short-circuit forms nested to depth 3"},
           explanation="every compiled program is executed symbolically at LLVM-IR level and its complete output compared with an independent C statement of the result")
