"""C11: constant expressions fold to the value the same expression has at run time.
Part A executes the folding code (constants.cpp) symbolically: operands are solver variables of the constant kinds, the
asserted value is the run-time semantics of the operator.  A counterexample is turned into a program that prints the
constant and the expression over variables, compiled by the real compiler.
Part B validates compiled programs whose constants are nested expressions (precedence, signs, parentheses, names,
functions) against oracles; the run-time inputs they are combined with are symbolic."""
from common import *
import fe
import struct
units = []

HEAD = r"""
#include "constants.h"
#include "expr.h"
#include <cstdint>
#include <cmath>
#include <llvm/Support/Casting.h>
#include "sym.h"
using namespace Constants;
typedef const ConstDecl* CP;
namespace Types { void EnumDecl::SetValues(const std::vector<std::string>&) {} }
static CP mk_i(int64_t v) { return new IntConstDecl(Location(), v); }
static CP mk_r(double v) { return new RealConstDecl(Location(), v); }
static CP mk_c(unsigned char v) { return new CharConstDecl(Location(), v); }
static CP mk_b(bool v) { return new BoolConstDecl(Location(), v); }
static CP mk_e(uint64_t v) { return new EnumConstDecl(0, Location(), v); }
static CP mk_s(const char* s, int n) { return new StringConstDecl(Location(), std::string(s, n)); }
static int32_t i32(const char* n) { return (int32_t)sym_val(32, n); }
static double f64(const char* n) { uint64_t u = sym_val(64, n); double d; __builtin_memcpy(&d, &u, 8); sym_assume(d == d); sym_assume(__builtin_fabs(d) <= 1.7976931348623157e308); return d; }
static void is_i(CP r, int64_t v) { sym_assert(r && r->getKind() == CK_IntConstDecl, "an integer constant results"); sym_assert((int64_t)((const IntConstDecl*)r)->Value() == v, "value of the folded integer constant"); }
static void is_b(CP r, int v) { sym_assert(r && r->getKind() == CK_BoolConstDecl, "a boolean constant results"); sym_assert(((const BoolConstDecl*)r)->Value() == v, "value of the folded boolean constant"); }
static void is_c(CP r, int v) { sym_assert(r && r->getKind() == CK_CharConstDecl, "a char constant results"); sym_assert(((const CharConstDecl*)r)->Value() == v, "value of the folded char constant"); }
static void is_e(CP r, uint64_t v) { sym_assert(r && r->getKind() == CK_EnumConstDecl, "an enumeration constant results"); sym_assert(((const EnumConstDecl*)r)->Value() == v, "value of the folded enumeration constant"); }
static void is_r(CP r, double v) { sym_assert(r && r->getKind() == CK_RealConstDecl, "a real constant results"); double d = ((const RealConstDecl*)r)->Value(); sym_assert((d == v) | ((d != d) & (v != v)), "value of the folded real constant"); }
static void is_s(CP r, const char* s, int n) { sym_assert(r && r->getKind() == CK_StringConstDecl, "a string constant results"); const std::string& t = ((const StringConstDecl*)r)->Value(); sym_assert((int)t.size() == n, "length of the folded string"); for (int i = 0; i < n && i < (int)t.size(); i++) sym_assert(t[i] == s[i], "characters of the folded string"); }
static bool fits(int64_t v) { return v == (int32_t)v; }
static CP F(const char* n, CP a, CP b = 0) { std::vector<CP> v; v.push_back(a); if (b) v.push_back(b); return EvalFunction(n, v); }
"""


def i32v(h):
    return struct.unpack("<i", bytes.fromhex(h)[:4].ljust(4, b"\0"))[0]


def f64v(h):
    return struct.unpack("<d", bytes.fromhex(h)[:8].ljust(8, b"\0"))[0]


def lit(k, v):
    if k == "i":
        return "(-2147483647 - 1)" if v == -2**31 else "(-%d)" % -v if v < 0 else str(v)
    if k == "r":
        s = "%.17g" % abs(v)
        if "." not in s and "e" not in s:
            s += ".0"
        return "(-%s)" % s if struct.pack("<d", v)[7] & 128 else s
    if k == "c":
        return "chr(%d)" % v
    if k == "b":
        return "true" if v else "false"
    if k == "e":
        return "e%d" % v
    if k == "s":
        return "''" if not v else "+".join("'%s'" % ("''" if c == "'" else c) if 32 <= ord(c) < 127 else "chr(%d)" % ord(c) for c in v)
    raise ValueError(k)


VT = {"i": "integer", "r": "real", "c": "char", "b": "boolean", "e": "en", "s": "string[8]"}
ENUM = "type en = (" + ", ".join("e%d" % i for i in range(9)) + ");"


def replay_expr(fmt, kinds):
    """fmt: Pascal expression over {0}, {1}; the counterexample's values are tried as constants and as variables"""
    def rp(e, d, v):
        inp = fe.inputs(v)
        vals = []
        for n, k in zip("ab", kinds):
            h = inp.get(n, "00")
            if k == "s":
                m = int.from_bytes(bytes.fromhex(inp.get(n + "len", "00")), "little")
                vals.append("".join(chr(bytes.fromhex(inp.get("%s%d" % (n, i), "00"))[0]) for i in range(m)))
            else:
                vals.append(i32v(h) if k in "ie" else f64v(h) if k == "r" else bytes.fromhex(h)[0])
        if any(k == "s" and any(ord(c) in (0, 10, 13) for c in x) for k, x in zip(kinds, vals)):
            return False, "value cannot be written in a source text", {}
        k = fmt.format(*[lit(t, x) for t, x in zip(kinds, vals)])
        ex = fmt.format(*["va", "vb"][:len(kinds)])
        pas = "program p;\n%s\nconst k = %s;\nvar %s;\nbegin\n%s\n if k = (%s) then writeln('same') else if k <> k then writeln('nan') else writeln('different');\nend.\n" % (
            ENUM, k, "; ".join("v%s: %s" % (n, VT[t]) for n, t in zip("ab", kinds)),
            " ".join("v%s := %s;" % (n, lit(t, x)) for n, t, x in zip("ab", kinds, vals)), ex)
        rc, msg, r, o = fe.run_program(e, d + "/run", pas)
        if rc != 0:
            # the same with the constant removed must be a valid program
            p2 = pas.replace("const k = %s;\n" % k, "").replace("if k = (%s)" % ex, "if (%s) = (%s)" % (ex, ex)).replace("if k <> k then writeln('nan') else ", "")
            return fe.run_program(e, d + "/run2", p2)[0] == 0, "constant %s rejected (exit %d): %s" % (k, rc, msg[-300:]), {"program.pas": pas}
        return r != 0 or o.strip() == "different", "constant %s: program prints %r, exit %d" % (k, o[:100], r), {"program.pas": pas}
    return rp


def U(name, body, fmt, kinds, **kw):
    units.append(fe.Unit("fold: " + name, HEAD + "int main() {\n%s\nreturn 0; }\n" % body, ("constants.cpp",), replay_expr(fmt, kinds), **kw))


AB = 'int64_t a = i32("a"), b = i32("b"); CP A = mk_i(a), B = mk_i(b);'
U("+", AB + "sym_assume(fits(a + b)); is_i(*A + *B, a + b);", "{0} + {1}", "ii")
U("-", AB + "sym_assume(fits(a - b)); is_i(*A - *B, a - b);", "{0} - {1}", "ii")
U("*", AB + "sym_assume(fits(a * b)); is_i(*A * *B, a * b);", "{0} * {1}", "ii")
U("div", AB + "sym_assume(b != 0); sym_assume(fits(a / b)); is_i(*A / *B, a / b);", "{0} div {1}", "ii", max_time=90, solver_ms=40000)
U("mod", AB + "sym_assume(b != 0); sym_assume((a != INT32_MIN) | (b != -1)); is_i(*A % *B, a % b);", "{0} mod {1}", "ii", max_time=90, solver_ms=40000)
U("div by zero", 'int64_t a = i32("a"); sym_assert(!(*mk_i(a) / *mk_i(0)), "an error"); sym_assert(!(*mk_i(a) % *mk_i(0)), "an error");', "{0} div 0", "i")
U("div, small values", 'int64_t a = i32("a"), b = i32("b"); sym_assume((a >= -128) & (a < 128) & (b >= -128) & (b < 128) & (b != 0)); CP R = *mk_i(a) % *mk_i(b), Q = *mk_i(a) / *mk_i(b); sym_assert(R && Q, "results"); int64_t r = ((const IntConstDecl*)R)->Value(), q = ((const IntConstDecl*)Q)->Value(); '
  'sym_assert(q * b + r == a, "quotient and remainder"); sym_assert(((r >= 0) | (a < 0)) & ((r <= 0) | (a > 0)), "sign of the remainder"); sym_assert((r < 0 ? -r : r) < (b < 0 ? -b : b), "size of the remainder");', "({0} div {1}) * 1000 + {0} mod {1}", "ii")
for nm, op in (("and", "&"), ("or", "|"), ("xor", "^")):
    U(nm, AB + "is_i(*A %s *B, a %s b);" % (op, op), "{0} %s {1}" % nm, "ii")
    U(nm + " of booleans", 'int a = sym_val(8, "a") & 1, b = sym_val(8, "b") & 1; is_b(*mk_b(a) %s *mk_b(b), a %s b);' % (op, op), "{0} %s {1}" % nm, "bb")
U("shl", AB + "sym_assume((b >= 0) & (b < 32)); sym_assume(fits(a << b)); is_i(*A << *B, a << b);", "{0} shl {1}", "ii")
U("shr", AB + "sym_assume((b >= 0) & (b < 32)); sym_assume((b > 0) | (a >= 0)); is_i(*A >> *B, (uint32_t)a >> b);", "{0} shr {1}", "ii")
for op in "+-*/":
    e = {"+": "a + b", "-": "a - b", "*": "a * b", "/": "a / b"}[op]
    nz = "sym_assume(b != 0);" if op == "/" else ""
    U("real " + op, 'double a = f64("a"), b = f64("b"); %s is_r(*mk_r(a) %s *mk_r(b), %s);' % (nz, op, e), "{0} %s {1}" % op, "rr", solver_ms=40000)
    U("integer %s real" % op, 'double a = i32("a"), b = f64("b"); %s is_r(*mk_i((int)a) %s *mk_r(b), %s);' % (nz, op, e), "{0} %s {1}" % op, "ir", solver_ms=40000)
    U("real %s integer" % op, 'double a = f64("a"); int n = i32("b"); double b = n; %s is_r(*mk_r(a) %s *mk_i(n), %s);' % (nz, op, e), "{0} %s {1}" % op, "ri", solver_ms=40000)
U("integer to real", 'int n = i32("a"); is_r(ToRealConstDecl(mk_i(n)), (double)n);', "{0} / 1", "i")
U("pow", 'int64_t a = i32("a"); sym_assume((a >= -1290) & (a <= 1290)); int b = sym_choose(6, "n"); int64_t v = 1; for (int i = 0; i < b; i++) v *= a; sym_assume(fits(v)); int64_t bb = i32("b"); sym_assume(bb == b); is_i(Pow(*mk_i(a), *mk_i(b)), v);', "{0} pow {1}", "ii", max_time=120, solver_ms=30000)
U("pow of small bases", 'int a = sym_choose(5, "n") - 2, aa = i32("a"); sym_assume(aa == a); int b = i32("b"); sym_assume((b >= 0) & (b <= 30)); int64_t w = 1; if (a == 2 || a == -2) w = (int64_t)1 << b; if (a == 0) w = b == 0; if ((a < 0) & b) w = -w; is_i(Pow(*mk_i(a), *mk_i(b)), w);', "{0} pow {1}", "ii", max_time=120)
U("pow of a negative exponent", 'int a = i32("a"), b = i32("b"); sym_assume(a != 0); sym_assume((b < 0) & (b >= -40)); int64_t w = 0; if (a == 1) w = 1; if (a == -1) w = (b & 1) ? -1 : 1; is_i(Pow(*mk_i(a), *mk_i(b)), w);', "{0} pow {1}", "ii")
U("pow of a real", 'double a = f64("a"); int b = i32("b"); sym_assume((b > -1000000) & (b < 1000000)); is_r(Pow(*mk_r(a), *mk_i(b)), pow(a, (double)b));', "{0} pow {1}", "ri")
U("**", 'double a = f64("a"), b = f64("b"); is_r(Power(*mk_r(a), *mk_r(b)), pow(a, b));', "{0} ** {1}", "rr")
U("integer ** real", 'double b = f64("b"); int m = i32("a"); is_r(Power(*mk_i(m), *mk_r(b)), pow((double)m, b));', "{0} ** {1}", "ir")
U("real ** integer", 'double a = f64("a"); int n = i32("b"); is_r(Power(*mk_r(a), *mk_i(n)), pow(a, (double)n));', "{0} ** {1}", "ri")
U("** of integers", 'int m = i32("a"), n = i32("b"); is_r(Power(*mk_i(m), *mk_i(n)), pow((double)m, (double)n));', "{0} ** {1}", "ii")
STR = 'int n = sym_choose(4, "n"); unsigned al = sym_val(8, "alen"); sym_assume(al == n); char s[4]; static const char* const nm[] = {"a0","a1","a2","a3"}; for (int i = 0; i < n; i++) s[i] = sym_val(8, nm[i]);'
U("string + char", STR + 'unsigned char c = sym_val(8, "b"); char w[8]; for (int i = 0; i < n; i++) w[i] = s[i]; w[n] = c; is_s(*mk_s(s, n) + *mk_c(c), w, n + 1);', "{0} + {1}", "sc")
U("char + string", STR.replace('"alen"', '"blen"').replace('"a0","a1","a2","a3"', '"b0","b1","b2","b3"') + 'unsigned char c = sym_val(8, "a"); char w[8]; for (int i = 0; i < n; i++) w[i + 1] = s[i]; w[0] = c; is_s(*mk_c(c) + *mk_s(s, n), w, n + 1);', "{0} + {1}", "cs")
U("string + string", STR + 'int m = sym_choose(3, "m"); unsigned bl = sym_val(8, "blen"); sym_assume(bl == m); char t[3]; static const char* const nb[] = {"b0","b1","b2"}; for (int i = 0; i < m; i++) t[i] = sym_val(8, nb[i]); char w[8]; for (int i = 0; i < n; i++) w[i] = s[i]; for (int i = 0; i < m; i++) w[n + i] = t[i]; is_s(*mk_s(s, n) + *mk_s(t, m), w, n + m);', "{0} + {1}", "ss")
U("length", STR + 'is_i(F("length", mk_s(s, n)), n);', "length({0})", "s")
U("chr", 'int a = i32("a"); sym_assume((a >= 0) & (a <= 255)); is_c(F("chr", mk_i(a)), a);', "chr({0})", "i")
for nm in ("ord", "ORD"):
    U(nm, 'int a = i32("a"); is_i(F("%s", mk_i(a)), a);' % nm, nm + "({0})", "i")
U("ord of a char", 'unsigned char a = sym_val(8, "a"); is_i(F("ord", mk_c(a)), a);', "ord({0})", "c")
U("ord of a boolean", 'int a = sym_val(8, "a") & 1; is_i(F("ord", mk_b(a)), a);', "ord({0})", "b")
U("ord of an enumeration value", 'int a = i32("a"); sym_assume((a >= 0) & (a < 9)); is_i(F("ord", mk_e(a)), a);', "ord({0})", "e")
U("odd", 'int a = i32("a"); is_b(F("odd", mk_i(a)), a & 1);', "odd({0})", "i")
for nm, s in (("succ", "+"), ("pred", "-")):
    U(nm, 'int64_t a = i32("a"); sym_assume(fits(a %s 1)); is_i(F("%s", mk_i(a)), a %s 1);' % (s, nm, s), nm + "({0})", "i")
    U(nm + " with a step", AB + 'sym_assume(fits(a %s b)); is_i(F("%s", A, B), a %s b);' % (s, nm, s), nm + "({0}, {1})", "ii")
    U(nm + " of a char", 'int a = (unsigned char)sym_val(8, "a"); int b = i32("b"); int64_t v = (int64_t)a %s b; sym_assume((v >= 0) & (v <= 255)); is_c(F("%s", mk_c(a), mk_i(b)), v);' % (s, nm), nm + "({0}, {1})", "ci")
    U(nm + " of an enumeration value", 'int a = i32("a"), b = i32("b"); sym_assume((a >= 0) & (a < 9)); sym_assume((b > -9) & (b < 9)); int v = a %s b; sym_assume((v >= 0) & (v < 9)); is_e(F("%s", mk_e(a), mk_i(b)), v);' % (s, nm), nm + "({0}, {1})", "ei")
    U(nm + " of a boolean", 'int a = %d, aa = sym_val(8, "a"); sym_assume(aa == a); is_b(F("%s", mk_b(a)), !a);' % (nm == "pred", nm), nm + "({0})", "b")
for nm, c in (("sin", "sin(a)"), ("cos", "cos(a)"), ("ln", "log(a)"), ("exp", "exp(a)")):
    U(nm, 'double a = f64("a"); %s is_r(F("%s", mk_r(a)), %s);' % ("sym_assume(a > 0);" if nm == "ln" else "", nm, c), nm + "({0})", "r")
TR = '(a <= -1 ? -__builtin_floor(-a) : a < 1 ? 0.0 : __builtin_floor(a))'
R31 = 'double a = f64("a"); sym_assume((a > -2147483647.0) & (a < 2147483647.0));'
U("trunc", R31 + 'CP r = F("trunc", mk_r(a)); sym_assert(r && r->getKind() == CK_IntConstDecl, "kind"); double v = (double)(int64_t)((const IntConstDecl*)r)->Value(), d = a - v; sym_assert((d > -1) & (d < 1) & ((a >= 0) | (d <= 0)) & ((a <= 0) | (d >= 0)), "truncated value");', "trunc({0})", "r", solver_ms=60000, max_time=120)
U("round", R31 + 'sym_assume((a > -2147483646.0) & (a < 2147483646.0)); CP r = F("round", mk_r(a)); sym_assert(r && r->getKind() == CK_IntConstDecl, "kind"); double v = (double)(int64_t)((const IntConstDecl*)r)->Value(), d = a - v; sym_assert((d >= -0.5) & (d <= 0.5) & ((d != 0.5) | (a < 0)) & ((d != -0.5) | (a > 0)), "rounded value");', "round({0})", "r", solver_ms=60000, max_time=120)
U("int", 'double a = f64("a"); is_r(F("int", mk_r(a)), __builtin_trunc(a));', "int({0})", "r", solver_ms=40000)
U("frac", 'double a = f64("a"); is_r(F("frac", mk_r(a)), a - __builtin_trunc(a));', "frac({0})", "r", solver_ms=40000)

# ---- part B ----
from c11b import progs  # noqa

if __name__ == "__main__":
    chk = run_tv("C11", progs, [["-O0"], ["-O2"]], budget=600, finish=False, explanation=__doc__,
                 bounds={"integer operands": "all 32-bit values", "real operands": "all finite doubles", "strings": "up to 4 characters", "pow": "exponents 0..5 with |base| <= 1290, 0..30 with |base| <= 2, -40..-1 for all bases",
                         "nested expressions": "the listed and generated expressions, with symbolic run-time operands"},
                 assumptions=["an integer result beyond 32 bits is not claimed", "pow, sin, cos, exp, log are uninterpreted functions of their arguments"])
    fe.run_units(chk, env(), units, budget=840)
    chk.finish(__doc__)
