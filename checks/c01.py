"""C01: integer expressions.  Operator x operand-type matrix, constants, random nested expressions."""
from common import *

# name, declaration, how the program obtains it, C
OPER = [
    ("a", I, "a", "a"), ("b", I, "b", "b"), ("l", L, "l", "l"), ("m", L, "m", "m"),
    ("s", I, "s", "s"), ("n", I, "n", "n"), ("ord(c)", I, "ord(c)", "c"), ("ord(e)", I, "ord(e)", "e"), ("w", I, "w", "w"), ("ord(q)", I, "ord(q)", "q"),
]
HEAD = """program p;
type col = (red, green, blue, cyan, pink);
     byte8 = 0..255;
     tiny = -100..100;
     wide = 1..1000000;
var a, b, x : integer;
    l, m : longint;
    s : byte8; n : tiny; w : wide;
    c : char; e : col; q : boolean;
    ea : array [0..4] of col;
begin
  ea[0] := red; ea[1] := green; ea[2] := blue; ea[3] := cyan; ea[4] := pink;
  read(a); read(b); read(l); read(m);
  read(x); s := x; read(x); n := x; read(x); w := x; read(x); c := chr(x); read(x); e := ea[x]; read(x); q := odd(x);
"""
OHEAD = """void oracle(void) {
 i32 a = in_i32(), b = in_i32(); i64 l = in_i64(), m = in_i64();
 i32 s = in_range(0, 255), n = in_range(-100, 100), w = in_range(1, 1000000), c = in_range(0, 255), e = in_range(0, 4), q = in_i32() & 1;
"""


def prog(name, exprs, **kw):
    pas = HEAD + "".join("  writeln(%s);\n" % x.p for x in exprs) + "end.\n"
    orc = OHEAD + "".join(" IL(%s);\n" % x.c for x in exprs) + "}\n"
    return Prog(name, pas, orc, **kw)


atoms = {nm: E(t, p, c) for nm, t, p, c in OPER}
progs = []
ops = ["+", "-", "*", "div", "mod", "and", "or", "xor"]
pairs = [(x, y) for x in atoms for y in atoms]
for op in ops:
    allx = [binop(op, atoms[x], atoms[y]) for x, y in pairs]
    for i in range(0, len(allx), 25):
        progs.append(prog("matrix_%s_%d" % (op, i // 25), allx[i:i + 25]))
# shifts: the count is an own operand
for op in ("shl", "shr"):
    xs = []
    for x in ("a", "l", "s", "n", "ord(c)", "w"):
        for y in ("b", "m", "s"):
            xs.append(binop(op, atoms[x], atoms[y]))
        xs += [binop(op, atoms[x], lit(k)) for k in (0, 1, 7, 15, 16, 31)]
    xs += [binop(op, atoms["l"], lit(k)) for k in (32, 33, 47, 63)]
    for i in range(0, len(xs), 12):
        progs.append(prog("shift_%s_%d" % (op, i // 12), xs[i:i + 12]))
# unary
xs = []
for x in atoms.values():
    xs += [neg(x), bnot(x), neg(binop("+", x, atoms["b"])), bnot(binop("-", x, atoms["l"])), binop("-", neg(x), atoms["a"])]
progs.append(prog("unary", xs))
# constants on either side
CONST = [0, 1, 2, 3, 7, 10, 16, 100, 255, 256, 1000, 32767, 32768, 65535, 65536, 1000000, 2147483647]
for op in ops:
    xs = []
    for k in CONST:
        for x in ("a", "l"):
            if not (op in ("div", "mod") and k == 0):
                xs.append(binop(op, atoms[x], lit(k)))
            xs.append(binop(op, lit(k), atoms[x]))
            if k and not (op in ("div", "mod") and k == 1):
                xs.append(binop(op, atoms[x], lit(-k)))
                xs.append(binop(op, lit(-k), atoms[x]))
    for k in (4294967296, 5000000000, 1099511627775, 9223372036854775807):
        for x in ("a", "l"):
            xs += [binop(op, atoms[x], lit(k)), binop(op, lit(k), atoms[x])]
    RND.shuffle(xs)
    xs = xs if THOROUGH else xs[:60]
    for i in range(0, len(xs), 20):
        progs.append(prog("const_%s_%d" % (op, i // 20), xs[i:i + 20]))
# assignments between widths keep the value when it fits
progs.append(Prog("assign", HEAD + """  l := a; writeln(l); l := s; writeln(l); l := n; writeln(l); l := ord(c); writeln(l);
  l := a + b; writeln(l); l := m; x := a;
  l := -x; writeln(l); l := x * 2; writeln(l); n := s - 100; writeln(n); l := n; writeln(l); w := w; l := w; writeln(l);
  l := m; l := l + x; writeln(l); l := x + m; writeln(l); l := x; l := l * l; writeln(l);
  s := s div 2; writeln(s); n := -n; writeln(n); a := n; writeln(a); x := s; writeln(x + n);
end.
""", OHEAD + """ IL(a); IL(s); IL(n); IL(c); IL(wadd(a,b)); IL(wneg(a)); IL(wmul(a,2)); sym_assume(s <= 200); IL(s-100);
 IL(s-100); IL(w); IL(wadd64(m, a)); IL(wadd64(a, m)); IL(wmul64(a, a)); IL(s/2); IL(100-s); IL(100-s); IL((s/2) + 100 - s); }"""))
# integer power
for nm, base, t, lo, hi, ks in (("a3", "a", I, None, None, (0, 1, 2, 3)), ("l2", "l", L, None, None, (0, 1, 2)), ("n", "n", I, -100, 100, (4,)), ("z", "z", I, -15, 15, (4, 5, 6)), ("zl", "zl", L, -15, 15, (5, 8))):
    xp, xo = [], []
    for k in ks:
        xp.append("%s pow %d" % (base, k))
        c = "1"
        for _ in range(k):
            c = "%s(%s, %s)" % ("wmul64" if t == L else "wmul", c, base)
        xo.append(c)
    progs.append(Prog("pow_const_" + nm, HEAD.replace("a, b, x", "z, a, b, x").replace("l, m", "zl, l, m").replace("  read(a);", "  read(z); zl := z; read(a);") + "".join("  writeln(%s);\n" % p for p in xp) + "end.\n",
                      OHEAD.replace("{\n", "{\n i32 z = in_range(-15, 15); i64 zl = z;\n", 1) + "".join(" IL(%s);\n" % c for c in xo) + "}\n"))
progs.append(Prog("pow_var", """program p; var a, k, z : integer; l : longint;
begin read(a); read(k); read(l); read(z); if k <= 2 then begin writeln(a pow k); writeln(l pow k); writeln(a pow k + 1); writeln(2 * a pow k) end;
writeln(2 pow k); writeln((-3) pow k); writeln(z pow k); writeln(-z pow k) end.
""", """void oracle(void){ i32 a = in_i32(), k = in_pick(0, 7); i64 l = in_i64(); i32 z = in_range(-9, 9), r = 1, t = 1, h = 1, y = 1, v = 1; i64 q = 1;
for (int i = 0; i < k; i++) { r = wmul(r, a); q = wmul64(q, l); t *= 2; h *= -3; y *= z; v *= -z; }
if (k <= 2) { IL(r); IL(q); IL(wadd(r,1)); IL(wmul(2,r)); } IL(t); IL(h); IL(y); IL(v); }"""))
progs.append(Prog("pow_neg", """program p; var a, k : integer; l : longint;
begin read(a); read(k); l := a; writeln(a pow k); writeln(l pow k) end.
""", """void oracle(void){ i32 a = in_i32(), k = in_pick(-3, -1); ASSUME(a != 0); i32 r = a == 1 ? 1 : a == -1 ? (k & 1 ? -1 : 1) : 0; IL(r); IL(r); }"""))
# sums and products over loops, functions and parameters of each width
progs.append(Prog("through_calls", """program p;
type sub = -5..300;
var a, b : integer; l, m : longint; s : sub;
function addi(x, y : integer) : integer; begin addi := x + y end;
function addl(x, y : longint) : longint; begin addl := x + y end;
function mixd(x : integer; y : longint) : longint; begin mixd := x * y - x end;
function subr(x : sub) : integer; begin subr := x * x end;
function nar(x : longint) : longint; begin nar := x mod 1000 end;
procedure acc(var t : longint; d : integer); begin t := t + d end;
procedure acci(var t : integer; d : integer); begin t := t * 3 + d end;
begin read(a); read(b); read(l); read(m); read(s);
writeln(addi(a, b)); writeln(addl(a, b)); writeln(addl(l, m)); writeln(addl(a, l)); writeln(mixd(a, b)); writeln(mixd(b, m)); writeln(subr(s)); writeln(nar(l)); writeln(nar(a));
acc(l, a); writeln(l); acci(a, b); writeln(a); acc(m, s); writeln(m); writeln(addi(s, 1) - addi(a, -b));
end.
""", """void oracle(void){ i32 a = in_i32(), b = in_i32(); i64 l = in_i64(), m = in_i64(); i32 s = in_range(-5, 300);
IL(wadd(a,b)); IL((i64)a+b); IL(wadd64(l,m)); IL(wadd64(a,l)); IL(wsub64(wmul64(a,b),a)); IL(wsub64(wmul64(b,m),b)); IL(s*s); IL(l%1000); IL(a%1000);
l = wadd64(l,a); IL(l); a = wadd(wmul(a,3),b); IL(a); m = wadd64(m,s); IL(m); IL(wsub(wadd(s,1), wsub(a,b))); }"""))
# random nested expressions
g = Gen(RND, [(t, p, c) for _, t, p, c in OPER], maxhard=2)
nrand = 60 if THOROUGH else 12
for k in range(nrand):
    xs = []
    while len(xs) < 12:
        x = g.num(RND.choice([I, I, L]), RND.choice([2, 3, 3, 4]))
        if x.prec < 100:
            xs.append(x)
    progs.append(prog("random_%d" % k, xs))

if __name__ == "__main__":
    run_tv("C01", progs, [["-O0"], ["-O2"], ["-O1", "-m32"]] + ([["-O3"], ["-O1", "-Cr"], ["-O0", "-m32"]] if THOROUGH else []),
           bounds={"operand values": "all 32/64-bit values of every input; assumed: divisors non-zero, no MIN div -1, shift counts inside the width",
                   "expressions": "10 operand kinds x 10 binary operators, unary operators, %d constants on each side, random nesting depth <= 4" % len(CONST),
                   "pow": "exponents -3..8; for exponents above 3 the base is limited to small ranges"},
           explanation="every compiled program is executed symbolically at LLVM-IR level and its complete output compared with an independent C statement of the result")
