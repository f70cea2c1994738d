# C12: options independence.  Programs of the other families under rarely used option combinations, all judged by
# the same option-independent oracles, plus programs around the decisions that depend on an option
# (memcpy of aggregates by size, inlined set operations, range-check code, debug info).
from common import *
import importlib
CFG = [["-O1"], ["-O3"], ["-O2", "-m32"], ["-O3", "-m32"], ["-O1", "-no-memcpy"], ["-O0", "-g"], ["-O2", "-g"], ["-O2", "-Cr"], ["-O3", "-Cr", "-m32"], ["-O0", "-m32", "-no-memcpy"], ["-O0", "-Cr", "-g"], ["-O2", "-no-memcpy"]]
ALL = [["-O0"], ["-O1"], ["-O2"], ["-O3"], ["-O0", "-m32"], ["-O2", "-m32"], ["-O0", "-no-memcpy"], ["-O2", "-no-memcpy"], ["-O1", "-no-memcpy", "-m32"], ["-O0", "-g"], ["-O1", "-g", "-m32"], ["-O0", "-Cr"], ["-O2", "-Cr"], ["-O1", "-Cr", "-m32"], ["-O3", "-Cr", "-g", "-no-memcpy"], ["-O0", "-std=iso10206"]]
progs = []
RELOPT = {"c09"}            # oracles that describe the checked program only: keep -Cr
for m, cnt in (("c01", 30), ("c02", 30), ("c03", 20), ("c04", 40), ("c05", 45), ("c06", 40), ("c07", 45), ("c08", 45), ("c09", 25), ("c10", 25), ("c18", 20), ("c19", 20), ("c21", 25), ("c23", 25), ("c24", 25)):
    if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
        continue
    src = importlib.import_module(m).progs
    if THOROUGH:
        cnt *= 3
    step = max(1, len(src) // cnt)
    for k, p in enumerate(src[SEED % step::step]):
        c = [CFG[(k * 5 + hash_(m + p.name)) % len(CFG)]]
        if m in RELOPT:
            c = [[o for o in x if o != "-Cr"] + ["-Cr"] for x in c]
        elif p.opts is not None:                 # the program's own option restrictions stay in force
            need = set.intersection(*[set(o) for o in p.opts])
            c = [[o for o in x if o in need or o[:2] in ("-O", "-g", "-n")] + [o for o in need if o not in x and o[:2] != "-O"] for x in c]
        progs.append(Prog(m + "_" + p.name, p.pas, p.oracle, opts=c))


def P(name, pas, orc, opts=None):
    o = []
    for x in opts or ALL:
        if x not in o:
            o.append(x)
    progs.append(Prog(name, pas, orc, opts=o))


def H(l):
    return "program p;\n" + l
# ---- aggregates of every size around the memcpy threshold --------------------------------------------------------------------
SIZES = range(1, 41) if THOROUGH else (1, 2, 3, 4, 7, 8, 9, 12, 14, 15, 16, 17, 18, 20, 23, 24, 31, 32, 33, 40)
for n in SIZES:
    opts = ALL if THOROUGH else [ALL[(n + 5 * k) % 15] for k in range(4)] + [["-O0", "-no-memcpy"] if n >= 16 else ["-O0"]]
    P("copy%d" % n, H("""type a = array [1..%d] of char; rc = record g1 : char; x : a; g2 : char end; pa = ^a;
var p, q : a; r, s : rc; t : array [0..2] of a; h : pa; i, k : integer; c, d : char;
procedure show(x : a); var i : integer; begin for i := 1 to %d do write(x[i]); writeln end;
function upd(x : a; k : integer; c : char) : a; begin x[k] := c; upd := x end;
procedure sw(var x, y : a); var z : a; begin z := x; x := y; y := z end;
begin read(c); read(d); read(k);
 for i := 1 to %d do begin p[i] := chr(64 + i); q[i] := '-' end;
 r.g1 := '<'; r.g2 := '>'; s := r; r.x := p; s.x := q; p[k] := c; q := p; q[1] := d; show(p); show(q); write(r.g1); show(r.x); write(r.g2); write(s.g1, s.g2); writeln;
 t[1] := q; t[0] := upd(p, k, d); t[2] := upd(t[1], %d, '!'); for i := 0 to 2 do show(t[i]); show(p);
 new(h); h^ := t[2]; h^[k] := '?'; show(h^); show(t[2]); sw(t[0], r.x); show(t[0]); show(r.x); writeln(r.g1, r.g2); s := r; r.x[1] := '.'; show(s.x); writeln(s.g1, s.g2);
end.
""" % (n, n, n, n)), """enum { N = %d };
static void show(u8* x) { o_mem(x, N); NL; }
void oracle(void){ u8 c = in_chr(), d = in_chr(); int k = in_pick(1, N < 3 ? N : 3); ASSUME(c != 0); ASSUME(d != 0); if (N > 8 && k == 3) k = 3; u8 p[N], q[N], rx[N], t0[N], t1[N], t2[N], h[N]; for (int i = 0; i < N; i++) p[i] = 65 + i;
 memcpy(rx, p, N); p[k-1] = c; memcpy(q, p, N); q[0] = d; show(p); show(q); o_chr('<'); show(rx); o_chr('>'); o_chr('<'); o_chr('>'); NL;
 memcpy(t1, q, N); memcpy(t0, p, N); t0[k-1] = d; memcpy(t2, t1, N); t2[N-1] = '!'; show(t0); show(t1); show(t2); show(p); memcpy(h, t2, N); h[k-1] = '?'; show(h); show(t2); show(rx); show(t0); o_chr('<'); o_chr('>'); NL; show(t0); o_chr('<'); o_chr('>'); NL; }""" % n, opts)
# records mixing field sizes, with padding
for k, (decl, set_, show, oset) in enumerate([
    ("a : integer; b : char", "x.a := v; x.b := c", "writeln(x.a, ' ', x.b)", "I(v); SP; o_chr(c); NL;"),
    ("b : char; a : longint", "x.a := v; x.b := c", "writeln(x.a, ' ', x.b)", "I(v); SP; o_chr(c); NL;"),
    ("b : char; a : integer; d : char; e : real", "x.a := v; x.b := c; x.d := 'd'; x.e := v", "writeln(x.a, ' ', x.b, x.d, ' ', x.e:1:1)", "I(v); SP; o_chr(c); o_chr('d'); SP; o_real(v,1,1); NL;"),
    ("s : set of 0..100; a : integer", "x.a := v; x.s := [abs(v mod 50), 100]", "writeln(x.a, ' ', ord(100 in x.s):1, ord(abs(x.a mod 50) in x.s):1, ord(99 in x.s):1)", "I(v); SP; o_int(1,1); o_int(1,1); o_int(0,1); NL;"),
    ("a : array [1..5] of integer; b : char", "x.a[1] := v; x.a[2] := 2; x.a[3] := v; x.a[4] := 4; x.a[5] := -v; x.b := c", "writeln(x.a[1], ' ', x.a[2], ' ', x.a[3], ' ', x.a[4], ' ', x.a[5], x.b)", "I(v); SP; I(2); SP; I(v); SP; I(4); SP; I(wneg(v)); o_chr(c); NL;"),
    ("n : string[5]; a : integer; m : string[6]", "x.n := 'ab' + c; x.m := c; x.a := v", "writeln(x.n, x.a, x.m)", "o_txt(\"ab\"); o_chr(c); I(v); o_chr(c); NL;"),
    ("p : ^integer; q : record k : integer; l : ^integer end; z : integer", "new(x.p); x.p^ := v; x.q.l := x.p; x.q.k := 4; x.z := 5", "writeln(x.p^, ' ', x.q.k, ' ', x.q.l^, ' ', x.z)", "I(v); SP; I(4); SP; I(v); SP; I(5); NL;"),
    ("case t : boolean of true : (a : integer; b : char); false : (c : longint; d, e : real)", "x.t := true; x.a := v; x.b := c", "writeln(ord(x.t):1, x.a, x.b)", "o_int(1,1); I(v); o_chr(c); NL;"),
    ("b : boolean; c, d : char; e : (one, two); f : 1..10", "x.b := v > 0; x.c := c; x.d := 'd'; x.e := two; x.f := 7", "writeln(ord(x.b):1, x.c, x.d, ord(x.e):1, x.f:1)", "o_int(v > 0,1); o_chr(c); o_chr('d'); o_int(1,1); o_int(7,1); NL;")]):
    P("record%d" % k, H("""type r = record %s end; big = record g : char; x, y : r; h : char end;
var x, y : r; v, g1 : integer; c : char; b, b2 : big; t : array [1..3] of r;
procedure set_(var x : r); begin %s end;
procedure show(x : r); begin %s end;
function id(x : r) : r; begin id := x end;
procedure val_(n : integer; x : r; m : integer); begin write(n, ' ', m, ' '); v := 0; c := '~'; set_(x); v := n end;
begin g1 := 77; read(v); read(c); set_(x); y := x; show(x); show(y); show(id(x)); t[2] := y; t[1] := id(t[2]); t[3] := t[1]; show(t[1]); show(t[3]); show(t[2]);
 b.g := '<'; b.h := '>'; b.x := t[3]; b.y := b.x; b2 := b; show(b2.x); show(b2.y); writeln(b2.g, b2.h, b.g, b.h, g1); val_(v, b.y, 9); show(b.y); with b2 do begin y := id(x); show(y) end;
end.
""" % (decl, set_, show)), "static void sh(i32 v, int c) { %s }\nvoid oracle(void){ i32 v = in_i32(); u8 c = in_chr(); for (int i = 0; i < 8; i++) sh(v, c); o_txt(\"<><>\"); IL(77); I(v); SP; I(9); SP; sh(v, c); sh(v, c); }" % oset)
# set operations: inlined from O1 on, library calls below
SZ = ["0..7", "0..31", "0..32", "0..63", "0..64", "5..100"] + (["0..255", "char", "0..127"] if THOROUGH else [])
for z in SZ:
    P("sets_" + z.replace(".", "_"), H("""type s = set of %s; var a, b, c : s; i, j, k : integer; d : char;
function n(x : s) : integer; begin n := card(x) end;
begin read(i); read(j); a := [%s, %s]; b := [%s]; c := a + b; write(n(c):1); c := a * b; write(n(c):1); c := a - b; write(n(c):1); c := a >< b; write(n(c):1);
 writeln(ord(a = b):1, ord(a <> b):1, ord(a <= b):1, ord(a >= b):1, ord((a + b) = (b + a)):1, ord((a - b) * b = []):1, ord(%s in a * b):1, ord((a >< b) = (a + b) - (a * b)):1);
 c := (a + b) - [%s]; writeln(n(c):1, ord(%s in c):1) end.
""" % ((z,) + (("chr(i)", "chr(j)", "chr(7)", "chr(j)", "chr(i)", "chr(7)") if z == "char" else ("i", "j", "7", "j", "i", "7")))),
      """void oracle(void){ int i = in_range(%d, %d), j = in_range(%d, %d);
 int na = 1 + (i != j), both = (i == 7) | (j == 7), u = na + 1 - both; o_int(u,1); o_int(both,1); o_int(na - both,1); o_int(u - both,1);
 int eq = (i == 7) & (j == 7); o_int(eq,1); o_int(!eq,1); o_int(eq,1); o_int(both,1); o_int(1,1); o_int(1,1); o_int((j == 7),1); o_int(1,1); NL;
 o_int(u - 1,1); o_int(i != 7,1); NL; }""" % ((5 if z.startswith("5") else 0, int(z.split("..")[1]) if ".." in z else 255) * 2), ALL[:11])
# ---- control, calls and strings under every option ---------------------------------------------------------------------------
P("nest", H("""type r4 = array [1..5] of integer; var n, g : integer; v : r4; s : string[9];
procedure outer(a : r4; b : integer; s : string); var loc : r4; k : integer;
  function sum(x : r4) : integer; var i, t : integer; begin t := 0; for i := 1 to 5 do t := t + x[i] * i; sum := t + k end;
  procedure inner(var x : r4; d : integer); begin if d > 0 then begin x[d] := x[d] + b; k := k + d; inner(x, d - 1) end else loc := x end;
begin k := 0; loc := a; inner(a, 3); writeln(sum(a), ' ', sum(loc), ' ', k, ' ', a[2], ' ', s, length(s)); a := loc; g := g + a[3] end;
begin read(n); for g := 1 to 5 do v[g] := n + g; g := 1; s := 'abc'; outer(v, n, s + 'd'); outer(v, 2, s); writeln(g, ' ', v[3], ' ', s) end.
"""), """static int sum(int* v, int k) { int t = 0; for (int i = 0; i < 5; i++) t = wadd(t, wmul(v[i], i + 1)); return wadd(t, k); }
void oracle(void){ i32 n = in_i32(), v[5], g = 1; for (int i = 0; i < 5; i++) v[i] = wadd(n, i + 1);
 for (int q = 0; q < 2; q++) { i32 a[5], b = q ? 2 : n; memcpy(a, v, sizeof a); for (int d = 0; d < 3; d++) a[d] = wadd(a[d], b); I(sum(a, 6)); SP; I(sum(a, 6)); SP; I(6); SP; I(a[1]); SP; o_txt(q ? "abc" : "abcd"); IL(q ? 3 : 4); g = wadd(g, a[2]); }
 I(g); SP; I(v[2]); SP; o_txt("abc"); NL; }""")
P("loops", H("""var i, j, n, t : integer; l : longint; c : char; r : real; b : boolean;
begin read(n); read(c); t := 0; for i := n downto n - 3 do begin for j := i to i + 2 do t := t * 2 + j; if odd(i) then t := t + 1 end; writeln(t); l := n; repeat l := l * 3 until l > 50; writeln(l);
 while n > 2 do begin n := n - 2; case n of 1: write('one'); 2..4: write('few'); 5, 7: write('odd') otherwise write('many') end; end; writeln; r := n; b := c in ['a'..'f', '0']; r := r / 4 + 0.5; writeln(r:8:3, ord(b):1); for c := c to succ(c) do write(ord(c), ' '); writeln end.
""".replace(" otherwise", "; otherwise")), """void oracle(void){ int n = in_pick(1, 9); u8 c = in_chr(); ASSUME(c < 255); int t = 0; for (int i = n; i >= n - 3; i--) { for (int j = i; j <= i + 2; j++) t = t * 2 + j; if (i & 1) t++; } IL(t); i64 l = n; do l *= 3; while (l <= 50); IL(l);
 while (n > 2) { n -= 2; o_txt(n == 1 ? "one" : n >= 2 && n <= 4 ? "few" : n == 5 || n == 7 ? "odd" : "many"); } NL; o_real(n / 4.0 + 0.5, 8, 3); o_int(((c >= 'a') & (c <= 'f')) | (c == '0'),1); NL; I(c); SP; I(c + 1); SP; NL; }""")
P("conf", H("""var a : array [-2..3] of integer; b : array [0..1] of integer; n, i : integer;
function sum(x : array [l..h : integer] of integer) : integer; var i, t : integer; begin t := 0; for i := l to h do t := t * 3 + x[i]; sum := t + l * 10 + h end;
procedure fill(var x : array [l..h : integer] of integer; v : integer); var i : integer; begin for i := l to h do x[i] := v + i end;
begin read(n); fill(a, n); fill(b, 5); writeln(sum(a), ' ', sum(b)); end.
"""), """void oracle(void){ i32 n = in_i32(), t = 0; for (int i = -2; i <= 3; i++) t = wadd(wmul(t, 3), wadd(n, i)); I(wadd(t, -17)); SP; IL(5 * 3 + 6 + 1); }""")
P("real", H("""var x, y : real; i : integer; function f(x, y : real; n : integer) : real; begin if n = 0 then f := x + y else f := f(y, x - y, n - 1) end;
begin read(x); read(y); read(i); writeln(x + y * 2); writeln(x - i); writeln(x / 8); writeln(f(x, y, 2)); writeln(-x); writeln(abs(y)); writeln(sqr(x)); writeln(ord(x < y):1) end.
"""), """void oracle(void){ double x = in_f64(), y = in_f64(); i32 i = in_i32(); ASSUME(x == x); ASSUME(y == y); RL(x + y * 2); RL(x - i); RL(x / 8); double a = y, b = x - y; double c = b, d = a - b; RL(c + d); RL(-x); RL(__builtin_fabs(y)); RL(x * x); o_int(x < y, 1); NL; }""")
if __name__ == "__main__":
    run_tv("C12", progs, ALL, max_time=20 if not THOROUGH else 60,
           bounds={"options": "-O0..-O3, -m32, -Cr, -g, -no-memcpy in %d combinations" % len(CFG + ALL), "programs": "a deterministic sample of every other family (each under one rarely used combination) and %d own programs under several" % len([p for p in progs if "_" not in p.name]),
                   "aggregate sizes": "1..40 bytes in assignment, value parameter, function result, array element and pointer target"},
           explanation="each program is compiled with the named options, executed symbolically at LLVM-IR level, and compared with an oracle that does not depend on the options")
