"""C03: real and complex expressions follow IEEE double semantics.  Programs over symbolic doubles and integers compiled by
the real compiler; the oracle computes the same double operations in C.  The arithmetic, comparisons, conversions and
roundings are IEEE operations in the solver, the transcendental functions are uninterpreted functions of their arguments
(so the right function must be applied to the right operands)."""
from common import *
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, "double pow(double, double); double sin(double); double cos(double); double tan(double); double atan(double); double exp(double); double log(double); double atan2(double, double); double sqrt(double); double fabs(double); double fmod(double, double); double floor(double); double trunc(double); double round(double); double sinh(double); double cosh(double); double modf(double, double*); double copysign(double, double);\n" + orc, **kw))


# an expression is (Pascal text, C text) over x, y: real; i, j: integer; l: longint
def E(name, exprs, vars_="x y i j", out="r", asm="", **kw):
    """each expression is written; out: r real, i integer, b boolean"""
    decl = {"x": ("x: real", "double x = in_f64();"), "y": ("y: real", "double y = in_f64();"), "z": ("z: real", "double z = in_f64();"), "i": ("i: integer", "int i = in_i32();"), "j": ("j: integer", "int j = in_i32();"), "l": ("l: longint", "long long l = in_i64();"),
            "s": ("s: sub", "int s = in_range(-50, 200);"), "b": ("b: byt", "int b = in_range(0, 255);")}
    vs = vars_.split()
    w = {"r": ("writeln(%s);", "RL(%s);"), "i": ("writeln(%s);", "IL(%s);"), "b": ("writeln(ord(%s):1);", "o_int(%s,1); NL;")}[out]
    P(name, "program p;\ntype sub = -50..200; byt = 0..255;\nvar %s;\nbegin\n %s\n%s\nend." % ("; ".join(decl[v][0] for v in vs), " ".join("read(%s);" % v for v in vs), "\n".join(" " + w[0] % e[0] for e in exprs)),
      "void oracle(void) { %s %s %s }" % (" ".join(decl[v][1] for v in vs), asm, " ".join(w[1] % e[1] for e in exprs)), **kw)


M32 = [["-O0"], ["-O2"], ["-O1", "-m32"]]
# ---- the four operations with every promotion ----
for op in "+-*/":
    for a, b in (("x", "y"), ("x", "i"), ("i", "x"), ("x", "l"), ("l", "x"), ("s", "x"), ("x", "b")):
        E("%s %s %s" % (a, op, b), [("%s %s %s" % (a, op, b), "%s%s %s %s%s" % ("" if a == "x" else "(double)", a, op, "" if b in "xy" else "(double)", b))], vars_="%s %s" % (a, b), asm="ASSUME(%s != 0);" % b if op == "/" else "", opts=M32 if (a, b) in (("x", "y"), ("x", "i")) else None)
    E("%s of literals" % op, [("x %s 2.5" % op, "x %s 2.5" % op), ("2.5 %s x" % op, "2.5 %s x" % op), ("x %s 3" % op, "x %s 3.0" % op), ("3 %s x" % op, "3.0 %s x" % op), ("x %s (-0.1)" % op, "x %s (-0.1)" % op), ("i %s 0.5" % op, "i %s 0.5" % op), ("0.5 %s i" % op, "0.5 %s i" % op)], vars_="x i", asm="ASSUME((x != 0) & (i != 0));")
E("/ of integers", [("i / j", "(double)i / (double)j"), ("i / 2", "i / 2.0"), ("1 / j", "1.0 / j"), ("(i + 1) / j", "(double)wadd(i,1) / j"), ("i / j / 2", "(double)i / j / 2.0")], vars_="i j", asm="ASSUME(j != 0);", opts=M32)
E("/ of long integers", [("l / 3", "(double)l / 3.0"), ("i / l", "(double)i / (double)l"), ("l / l", "(double)l / (double)l")], vars_="i l", asm="ASSUME(l != 0);")
E("/ of subranges", [("s / 4", "s / 4.0"), ("b / s", "(double)b / s"), ("s / b", "(double)s / b")], vars_="s b", asm="ASSUME((s != 0) & (b != 0));")
# ---- comparisons ----
for op, c in (("=", "=="), ("<>", "!="), ("<", "<"), ("<=", "<="), (">", ">"), (">=", ">=")):
    E("comparison " + op, [("x %s y" % op, "x %s y" % c), ("y %s x" % op, "y %s x" % c), ("x %s i" % op, "x %s (double)i" % c), ("i %s x" % op, "(double)i %s x" % c), ("x %s 0" % op, "x %s 0.0" % c), ("1.5 %s x" % op, "1.5 %s x" % c), ("x %s -2" % op, "x %s -2.0" % c), ("not (x %s y)" % op, "!(x %s y)" % c), ("x %s x" % op, "x %s x" % c), ("-x %s y" % op, "-x %s y" % c)],
      vars_="x y i", out="b", opts=M32)
    E("comparison with longint " + op, [("x %s l" % op, "x %s (double)l" % c), ("l %s x" % op, "(double)l %s x" % c), ("x %s s" % op, "x %s (double)s" % c)], vars_="x l s", out="b")
    P("branch on " + op, "program p;\nvar x, y: real; n: integer;\nbegin read(x); read(y); if x %s y then writeln('yes') else writeln('no'); n := 0; while (n < 2) and (x %s y) do n := n + 1; writeln(n:1); repeat n := n - 1 until (x %s y) or (n < -2); writeln(n:1) end." % (op, op, op),
      "void oracle(void) { double x = in_f64(), y = in_f64(); int c = x %s y; o_txt(c ? \"yes\\n\" : \"no\\n\"); o_int(c ? 2 : 0,1); NL; o_int(c ? 1 : -3,1); NL; }" % c)
# ---- signs, precedence, associativity ----
E("signs", [("-x", "-x"), ("+x", "x"), ("-(x)", "-x"), ("-(-x)", "x"), ("0 - x", "0.0 - x"), ("-x + y", "-x + y"), ("-x * y", "-x * y"), ("x - -y" if False else "x - (-y)", "x - -y"), ("-(x - y)", "-(x - y)"), ("-x - y", "-x - y"), ("x * (-y)", "x * -y")], vars_="x y", opts=M32)
E("order of operations", [("x - y - z", "(x - y) - z"), ("x - (y - z)", "x - (y - z)"), ("x * y + z", "x * y + z"), ("x + y * z", "x + y * z"), ("(x + y) * z", "(x + y) * z"), ("x + y - z", "(x + y) - z"), ("x * y * z", "(x * y) * z")], vars_="x y z", opts=M32)
E("order of division", [("x / y / z", "(x / y) / z"), ("x / (y * z)", "x / (y * z)"), ("x / y * z", "(x / y) * z"), ("x * y / z", "(x * y) / z"), ("x - y / z", "x - y / z"), ("(x - y) / z", "(x - y) / z"), ("x / (y / z)", "x / (y / z)")], vars_="x y z", asm="ASSUME((y != 0) & (z != 0)); ASSUME(y * z != 0); ASSUME(y / z != 0);")
E("integer parts stay integer", [("i div 2 * x", "(double)(i / 2) * x"), ("i * j + x", "(double)wmul(i,j) + x"), ("x + i * j", "x + (double)wmul(i,j)"), ("(i + j) * x", "(double)wadd(i,j) * x"), ("i - j - x", "(double)wsub(i,j) - x"), ("i mod 7 + x", "(double)(i % 7) + x"), ("x * (i - j)", "x * (double)wsub(i,j)")], vars_="x i j")
E("reals spread to the right only", [("x + i + j", "x + (double)i + (double)j"), ("i + j + x", "(double)wadd(i,j) + x"), ("x * i * j", "x * (double)i * (double)j"), ("x - i - 1", "x - (double)i - 1.0")], vars_="x i j")
E("ord and comparisons in expressions", [("x + ord(x > y)", "x + (double)(x > y)"), ("ord(i > 3) * y", "(double)(i > 3) * y"), ("x + sqr(i)", "x + (double)wmul(i,i)"), ("abs(i) * x", "(double)(i < 0 ? wneg(i) : i) * x")], vars_="x y i")
# ---- assignment, parameters, results ----
P("integer assigned to real", "program p;\ntype r = record a: integer; b: real end;\nvar x: real; i: integer; l: longint; v: array [1..3] of real; q: r; t: ^real;\nbegin read(i); read(l); x := i; writeln(x); x := l; writeln(x); v[2] := i; writeln(v[2]); q.b := i + 1; writeln(q.b); new(t); t^ := -i; writeln(t^); x := 7; writeln(x) end.",
  "void oracle(void) { int i = in_i32(); long long l = in_i64(); RL((double)i); RL((double)l); RL((double)i); RL((double)wadd(i,1)); RL((double)wneg(i)); RL(7.0); }", opts=M32)
P("integer argument for a real parameter", "program p;\nvar i: integer; x: real;\nfunction f(a: real): real;\nbegin f := a + 0.5 end;\nfunction g(i: integer): real;\nbegin g := i end;\nfunction h(protected a: real; b: real): real;\nbegin h := a - b end;\nbegin read(i); read(x); writeln(f(i)); writeln(f(x)); writeln(g(i)); writeln(f(g(i))); writeln(h(x, i)); writeln(f(3)) end.",
  "void oracle(void) { int i = in_i32(); double x = in_f64(); RL((double)i + 0.5); RL(x + 0.5); RL((double)i); RL((double)i + 0.5); RL(x - (double)i); RL(3.5); }", opts=M32)
P("reals through variables", "program p;\ntype a = array [0..2] of real; r = record n: integer; x, y: real end; pr = ^r;\nvar v, w: a; q: r; p: pr; i: integer; x: real;\nprocedure swap(var s, t: real); var u: real; begin u := s; s := t; t := u end;\nprocedure bump(var s: real; by: real); begin s := s + by end;\nbegin read(x); v[0] := x; read(v[1]); v[2] := v[0] * v[1]; w := v; swap(w[0], w[2]); q.n := 3; q.x := w[0]; q.y := w[2]; new(p); p^ := q; bump(p^.x, q.n); bump(v[1], v[0]); read(i); writeln(w[i]); writeln(p^.x); writeln(p^.y); writeln(v[1]) end.",
  "void oracle(void) { double x = in_f64(), y = in_f64(), m = x * y; int i = in_pick(0,2); double w[3] = { m, y, x }; RL(w[i]); RL(m + 3.0); RL(x); RL(y + x); }", opts=M32)
P("accumulation", "program p;\nvar x, s, t: real; n: integer;\nbegin read(x); s := 0; t := 1; for n := 1 to 3 do begin s := s + x; t := t * x; s := s + n end; writeln(s); writeln(t); n := 0; s := x; while n < 3 do begin s := s / 2; n := n + 1 end; writeln(s) end.",
  "void oracle(void) { double x = in_f64(), s = 0, t = 1; for (int n = 1; n <= 3; n++) { s = s + x; t = t * x; s = s + (double)n; } RL(s); RL(t); RL(((x / 2.0) / 2.0) / 2.0); }")
P("recursion on reals", "program p;\nvar x: real;\nfunction power(x: real; n: integer): real;\nbegin if n = 0 then power := 1 else power := x * power(x, n - 1) end;\nfunction mean(a, b: real): real;\nbegin mean := (a + b) / 2 end;\nbegin read(x); writeln(power(x, 3)); writeln(mean(x, mean(x, 1))) end.",
  "void oracle(void) { double x = in_f64(); RL(x * (x * (x * 1.0))); RL((x + (x + 1.0) / 2.0) / 2.0); }")
P("real constants", "program p;\nconst pi2 = 6.28318530717958647692; tiny = 1e-300; big = 1.5E+300; h = 0.1; m = -2.5e-3; n = 1e10;\nvar x: real;\nbegin read(x); writeln(x * pi2); writeln(x + tiny); writeln(x - big); writeln(x * h); writeln(x + m); writeln(x * n); writeln(x * maxreal); writeln(x + epsreal); writeln(ord(x < 0.1e1):1) end.",
  "void oracle(void) { double x = in_f64(); RL(x * 6.28318530717958647692); RL(x + 1e-300); RL(x - 1.5e300); RL(x * 0.1); RL(x + -2.5e-3); RL(x * 1e10); RL(x * 1.7976931348623157e308); RL(x + 2.220446049250313e-16); o_int(x < 1.0,1); NL; }")
# ---- functions ----
E("abs and sqr", [("abs(x)", "fabs(x)"), ("sqr(x)", "x * x"), ("abs(-x)", "fabs(x)"), ("sqr(x + y)", "(x + y) * (x + y)"), ("abs(x - y)", "fabs(x - y)"), ("abs(x) * sqr(y)", "fabs(x) * (y * y)"), ("sqrt(abs(x))", "sqrt(fabs(x))"), ("sqrt(sqr(i))" if False else "sqrt(abs(y) + 4)", "sqrt(fabs(y) + 4.0)")], vars_="x y", opts=M32)
for f, c in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("arctan", "atan"), ("exp", "exp"), ("ln", "log"), ("sqrt", "sqrt")):
    pos = "ASSUME((x > 0) & (y > 0) & (i > 0) & (i < 1000000));" if f in ("ln", "sqrt") else ""
    E(f, [("%s(x)" % f, "%s(x)" % c), ("%s(i)" % f, "%s((double)i)" % c), ("%s(x) + %s(y)" % (f, f), "%s(x) + %s(y)" % (c, c)), ("%s(x * y)" % f, "%s(x * y)" % c), ("1 - %s(2)" % f, "1.0 - %s(2.0)" % c) if f == "sqrt" else ("-%s(y)" % f, "-%s(y)" % c)], vars_="x y i", asm=pos, opts=M32)
E("two-argument functions", [("arctan2(x, y)", "atan2(x, y)"), ("arctan2(y, x)", "atan2(y, x)"), ("arctan2(i, x)", "atan2((double)i, x)"), ("arctan2(x, 1)", "atan2(x, 1.0)"), ("max(x, y)", "(x > y ? x : y)"), ("min(x, y)", "(x < y ? x : y)"), ("max(x, i)", "(x > (double)i ? x : (double)i)"), ("min(i, y)", "((double)i < y ? (double)i : y)")], vars_="x y i", asm="ASSUME(((x < y) | (x > y)) & ((x < i) | (x > i)) & ((y < i) | (y > i)) & (x != 0) & (y != 0));")
E("fmod", [("fmod(x, 8)", "fmod(x, 8.0)"), ("fmod(x, y)", "fmod(x, y)"), ("fmod(i, x)", "fmod((double)i, x)")], vars_="x y i", asm="ASSUME((x != 0) & (y != 0));")
E("int and frac", [("int(x)", "trunc(x)"), ("int(x - y)", "trunc(x - y)"), ("-int(y)", "-trunc(y)")], vars_="x y", asm="ASSUME((fabs(x) < 1e300) & (fabs(y) < 1e300));")
E("frac", [("frac(x)", "(x - trunc(x))")], vars_="x", asm="ASSUME((x != trunc(x)) & (fabs(x) < 1e300));")
E("trunc", [("trunc(x)", "(int)x"), ("trunc(x) + 1", "wadd((int)x, 1)"), ("trunc(-x)", "(int)-x"), ("trunc(x) * 2 - i", "wsub(wmul((int)x, 2), i)")], vars_="x i", out="i", asm="ASSUME((x > -2147483648.0) & (x < 2147483648.0));", opts=M32)
E("round", [("round(x)", "R"), ("round(x) - i", "wsub(R, i)"), ("round(-x)", "wneg(R)")], vars_="x i", out="i", asm="ASSUME((x > -2147483647.5) & (x < 2147483647.5)); int R = (int)trunc(x); double D = x - trunc(x); if (D >= 0.5) R++; if (D <= -0.5) R--;", opts=M32)
E("round of quotients", [("round(i / 2)", "((i >= 0) ? (i + 1) / 2 : -((1 - i) / 2))"), ("trunc(i / 2)", "i / 2"), ("round(i / 4)", "((i >= 0) ? (i + 2) / 4 : -((2 - i) / 4))"), ("round(i * 0.5)", "((i >= 0) ? (i + 1) / 2 : -((1 - i) / 2))")], vars_="i", out="i", asm="ASSUME((i > -30000) & (i < 30000));")
# ---- exponentiation ----
E("** of reals", [("x ** y", "pow(x, y)"), ("x ** 2.5", "pow(x, 2.5)"), ("x ** i", "pow(x, (double)i)"), ("i ** x", "pow((double)i, x)"), ("x ** y * 3", "pow(x, y) * 3.0"), ("3 * x ** y", "3.0 * pow(x, y)"), ("(-x) ** y", "pow(-x, y)"), ("x ** (y + 1)", "pow(x, y + 1.0)")], vars_="x y i", opts=M32)
E("2 ** real", [("2 ** x", "pow(2.0, x)"), ("2 ** x * y", "pow(2.0, x) * y")], vars_="x y", opts=[["-O0"]])  # the optimiser calls exp2
E("** of integers", [("i ** j", "pow((double)i, (double)j)"), ("2 ** i", "pow(2.0, (double)i)"), ("i ** 3", "pow((double)i, 3.0)")], vars_="i j", opts=[["-O0"]])
# ---- complex ----
CP = "procedure w(x: complex); begin write(re(x), ' ', im(x)); writeln end;\n"
CO = r"""
typedef struct { double r, i; } C;
static C mk(double r, double i) { C c = { r, i }; return c; }
static void W(C c) { o_real(c.r,0,-1); SP; o_real(c.i,0,-1); NL; }
static C add(C a, C b) { return mk(a.r + b.r, a.i + b.i); }
static C sub(C a, C b) { return mk(a.r - b.r, a.i - b.i); }
static C mul(C a, C b) { return mk(a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r); }
static C divi(C a, C b) { double d = b.r * b.r + b.i * b.i; return mk((a.r * b.r + a.i * b.i) / d, (a.i * b.r - a.r * b.i) / d); }
static C cexp_(C a) { double e = exp(a.r); return mk(e * cos(a.i), e * sin(a.i)); }
static C cpow_(C a, double b) { if ((a.r == 0) & (a.i == 0)) return mk(0, 0); if (b == 0) return mk(1, 0); return cexp_(mk(0.5 * log(a.r * a.r + a.i * a.i) * b, atan2(a.i, a.r) * b)); }
"""


def X(name, body, orc, vars_="", pre="", **kw):
    P("complex: " + name, "program p;\ntype cr = record n: integer; z: complex; m: integer end; ca = array [0..2] of complex; cf = complex;\nvar c, d, e: complex; x, y, z, u: real; i, j: integer; %s\n%s%sbegin\n%s\nend." % (vars_, CP, pre, body), CO + "void oracle(void) { %s }" % orc, **kw)


RD = "read(x); read(y); c := cmplx(x, y); read(z); read(u); d := cmplx(z, u);"
RO = "double x = in_f64(), y = in_f64(), z = in_f64(), u = in_f64(); C c = mk(x, y), d = mk(z, u);"
R1 = "read(x); read(y); c := cmplx(x, y);"
O1 = "double x = in_f64(), y = in_f64(); C c = mk(x, y);"
X("parts", RD + "w(c); w(d); writeln(re(c)); writeln(im(c)); writeln(im(d)); w(cmplx(1, 2)); w(cmplx(y, x)); w(cmplx(x, 0)); e := c; w(e); e := x; w(e)", RO + "W(c); W(d); RL(x); RL(y); RL(u); W(mk(1,2)); W(mk(y,x)); W(mk(x,0)); W(c); W(mk(x,0));", opts=M32)
for nm, op, fn in (("+", "+", "add"), ("-", "-", "sub"), ("*", "*", "mul")):
    X(nm, RD + "w(c %s d); e := d %s c; w(e)" % (op, op), RO + "W(%s(c,d)); W(%s(d,c));" % (fn, fn), opts=M32)
    X(nm + " with real and integer", R1 + "read(z); read(i); w(c %s z); w(z %s c); w(c %s i); w(i %s c); w(c %s 2); w(2.5 %s c)" % ((op,) * 6), O1 + "double z = in_f64(); int i = in_i32(); C a = mk(z,0), b = mk((double)i,0); W(%s(c,a)); W(%s(a,c)); W(%s(c,b)); W(%s(b,c)); W(%s(c,mk(2,0))); W(%s(mk(2.5,0),c));" % ((fn,) * 6))
X("/", RD + "w(c / d)", RO + "ASSUME(z * z + u * u > 0); W(divi(c,d));", opts=M32)
X("/ with real and integer", R1 + "read(z); read(i); w(c / z); w(z / c); w(c / i); w(i / c); w(c / 2); w(1 / c)", O1 + "double z = in_f64(); int i = in_i32(); ASSUME((x * x + y * y > 0) & (z * z > 0) & (i != 0)); C a = mk(z,0), b = mk((double)i,0); W(divi(c,a)); W(divi(a,c)); W(divi(c,b)); W(divi(b,c)); W(divi(c,mk(2,0))); W(divi(mk(1,0),c));")
X("nested", RD + "w((c + d) * c); w(c * d - c); w((c - d) * (c + d)); w(c - d - c); w(c + d * c); e := c; e := e * e; w(e); e := e + d; w(e)", RO + "W(mul(add(c,d),c)); W(sub(mul(c,d),c)); W(mul(sub(c,d),add(c,d))); W(sub(sub(c,d),c)); W(add(c,mul(d,c))); C e = mul(c,c); W(e); W(add(e,d));")
X("comparison", RD + "writeln(ord(c = d):1, ord(c <> d):1, ord(c = c):1); if c = d then writeln('eq') else writeln('ne'); writeln(ord(c + d = d + c):1); e := cmplx(x, u); writeln(ord(e = c):1, ord(e <> d):1)", RO + "int q = (x == z) & (y == u); ASSUME((x < 1e300) & (x > -1e300) & (z < 1e300) & (z > -1e300) & (y < 1e300) & (y > -1e300) & (u < 1e300) & (u > -1e300)); o_int(q,1); o_int(!q,1); o_int(1,1); NL; o_txt(q ? \"eq\\n\" : \"ne\\n\"); o_int(1,1); NL; o_int(u == y,1); o_int(x != z,1); NL;")
X("abs and arg", R1 + "writeln(abs(c)); writeln(arg(c)); writeln(re(c) * im(c))", O1 + "RL(sqrt(x * x + y * y)); RL(atan2(y, x)); RL(x * y);", opts=M32)
X("sqr", R1 + "w(sqr(c)); e := sqr(c); w(e)", O1 + "C s = mk(x * x - y * y, x * y + x * y); W(s); W(s);")
X("functions of expressions", RD + "writeln(re(c + d)); writeln(im(c * d)); w(sqr(c + d)); writeln(abs(c - d)); writeln(arg(c + d)); writeln(re(cmplx(x, y)) - im(sqr(c)))", RO + "RL(x + z); RL(x * u + y * z); double p = x + z, q = y + u; W(mk(p * p - q * q, p * q + p * q)); double a = x - z, b = y - u; RL(sqrt(a * a + b * b)); RL(atan2(q, p)); RL(x - (x * y + x * y));")
for f, e in (("exp", "cexp_(c)"), ("sin", "mk(sin(x) * cosh(y), cos(x) * sinh(y))"), ("cos", "mk(cos(x) * cosh(y), -sin(x) * sinh(y))"), ("ln", "mk(0.5 * log(x * x + y * y), atan2(y, x))"),
             ("tan", "mk(sin(2 * x) / (cos(2 * x) + cosh(2 * y)), sinh(2 * y) / (cos(2 * x) + cosh(2 * y)))"), ("arctan", "mk(0.5 * atan2(2 * x, 1 - x * x - y * y), 0.25 * log((x * x + (y + 1) * (y + 1)) / (x * x + (y - 1) * (y - 1))))"),
             ("sqrt", "mk(sqrt((x + sqrt(x * x + y * y)) / 2), copysign(sqrt((-x + sqrt(x * x + y * y)) / 2), y))")):
    X(f, R1 + "w(%s(c)); e := %s(c) + c; w(e); w(%s(c + c))" % (f, f, f), O1 + "ASSUME((x > 1e-3) & (x < 1e3) & (y > 1e-3) & (y < 1e3)); C r = %s; W(r); W(add(r,c)); { C k = add(c,c); C c = k; double x = k.r, y = k.i; W(%s); }" % (e, e))
X("polar", "read(x); read(y); w(polar(x, y)); e := polar(2, y); w(e); w(polar(x, 1))", "double x = in_f64(), y = in_f64(); W(mk(x * cos(y), x * sin(y))); W(mk(2 * cos(y), 2 * sin(y))); W(mk(x * cos(1), x * sin(1)));", opts=M32)
X("**", R1 + "read(z); w(c ** z); w(c ** 2); read(i); w(c pow i); w(c pow 3)", O1 + "double z = in_f64(); W(cpow_(c,z)); W(cpow_(c,2)); int i = in_i32(); W(cpow_(c,(double)i)); W(cpow_(c,3));")
X("stored", RD + "a[0] := c; a[1] := d; a[2] := c + d; r.n := 1; r.m := 2; r.z := a[1]; b := a; read(i); w(a[i]); w(r.z); w(b[2 - i]); writeln(r.n:1, r.m:1); new(p); p^ := r.z * c; w(p^); writeln(re(a[1])); writeln(im(r.z)); writeln(re(p^)); s := r; w(s.z)", RO + "int i = in_pick(0,2); C a[3] = { c, d, add(c,d) }; W(a[i]); W(d); W(a[2 - i]); o_int(1,1); o_int(2,1); NL; W(mul(d,c)); RL(z); RL(u); RL(mul(d,c).r); W(d);", vars_="a, b: ca; r, s: cr; p: ^complex;", opts=M32)
X("parameters", RD + "w(f(c, d)); g(c); w(c); h(d); w(d); w(k(x, i)); w(f(x, 2)); w(f(f(c, d), c))", RO + "W(sub(c,d)); C c2 = add(c,c); W(c2); W(d); W(mk(x,0)); W(mk(x - 2,0)); W(sub(sub(c2,d),c2));",
  pre="function f(a, b: complex): cf; begin f := a - b end;\nprocedure g(var a: complex); begin a := a + a end;\nprocedure h(a: complex); begin a := cmplx(0, 0) end;\nfunction k(a: real; n: integer): cf; begin k := a end;\n", opts=M32)
X("recursion and locals", "read(x); read(y); w(f(cmplx(x, y), 3))", "double x = in_f64(), y = in_f64(); C c = mk(x,y), t = mk(1,0); for (int i = 0; i < 3; i++) t = mul(c, t); W(t);",
  pre="function f(a: complex; n: integer): cf; var t: complex; begin if n = 0 then t := 1 else t := a * f(a, n - 1); f := t end;\n")
X("promoted calls happen once", "x := 0; i := 0; c := cmplx(1, 2); w(c + n); writeln(i:1); w(c * n + n); writeln(i:1); d := n; w(d); writeln(i:1); w(n - c); writeln(i:1)", "C c = mk(1,2); W(mk(2,2)); o_int(1,1); NL; W(add(mul(c,mk(2,0)),mk(3,0))); o_int(3,1); NL; W(mk(4,0)); o_int(4,1); NL; W(mk(4,-2)); o_int(5,1); NL;",
  pre="function n: integer; begin i := i + 1; n := i end;\n")
X("with", RD + "r.z := c; r.n := 3; with r do begin z := z + d; n := n + 1 end; w(r.z); writeln(r.n:1)", RO + "W(add(c,d)); o_int(4,1); NL;", vars_="r: cr;")
# ---- generated real expressions ----
def gen(rnd, d):
    """(Pascal, C, is it real) of a random numeric expression over x, y (real) and i, j (integer, small)"""
    if d == 0 or rnd.random() < 0.12:
        k = rnd.randrange(7)
        return [("x", "x", 1), ("y", "y", 1), ("i", "i", 0), ("j", "j", 0), ("0.5", "0.5", 1), ("3", "3", 0), ("-1.25", "(-1.25)", 1)][k] + (100,)
    k = rnd.random()
    if k < 0.1:
        a = gen(rnd, d - 1)
        if a[2]:
            return ("abs(%s)" % a[0], "fabs(%s)" % a[1], 1, 100)
    if k < 0.18:
        a = gen(rnd, d - 1)
        return ("-(%s)" % a[0], "(-(%s))" % a[1], a[2], 30)
    op = rnd.choice("++--**")
    a, b = gen(rnd, d - 1), gen(rnd, d - 1)
    pr = 40 if op in "*/" else 10
    l = a[0] if a[3] >= pr else "(%s)" % a[0]
    r = b[0] if b[3] > pr else "(%s)" % b[0]
    if r.startswith("-"):
        r = "(%s)" % r
    re = a[2] or b[2]
    if not re and max(len(a[0]), len(b[0])) > 3:  # products of integers are C01's subject
        return a
    ca = a[1] if a[2] or not re else "(double)(%s)" % a[1]
    cb = b[1] if b[2] or not re else "(double)(%s)" % b[1]
    return ("%s %s %s" % (l, op, r), "((%s) %s (%s))" % (ca, op, cb), re, pr)


for n in range(40 if THOROUGH else 12):
    rnd = random.Random("c03-%d-%d" % (SEED, n))
    ex = []
    while len(ex) < 4:
        g = gen(rnd, 4 if THOROUGH else 3)
        if g[2]:
            ex.append(g)
    P("generated %d" % n, "program p;\nvar x, y: real; i, j: integer;\nbegin read(x); read(y); read(i); read(j);\n%s\nend." % "\n".join(" writeln(%s);" % g[0] for g in ex),
      "void oracle(void) { double x = in_f64(), y = in_f64(); int i = in_range(-10,10), j = in_range(-10,10); %s }" % " ".join("RL(%s);" % g[1] for g in ex))

if __name__ == "__main__":
    run_tv("C03", progs, [["-O0"], ["-O2"]], explanation=__doc__, solver_ms=60000 if THOROUGH else 15000,
           bounds={"reals": "all finite doubles (two to four per program)", "integers": "all 32-bit and 64-bit values", "functions": "sin, cos, tan, arctan, exp, ln, **, sinh, cosh as uninterpreted functions of their operands; sqrt, fabs, floor, trunc, round as IEEE operations"},
           assumptions=["accuracy of the C library's transcendental functions is outside the property", "the complex functions are compared with the formulas the runtime documents"])
