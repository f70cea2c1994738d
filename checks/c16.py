"""C16: writestr, readstr and val.  Programs compiled by the real compiler, run with the runtime's real conversions;
numbers are converted to digits and back symbolically."""
from common import *
progs = []
PRE = r"""
extern int ml_exact;
static u8 S[1200]; static int N;                      /* the text as it should be */
static void begin(void) { N = 0; }
static void sb(const void* p, int n) { memcpy(S + N, p, n); N += n; }
static void sc(int c, int w) { while (w-- > 1) S[N++] = ' '; S[N++] = c; }
static void sx(const void* p, int n, int w) { if (w > 0 && n > w) n = w; while (w-- > n) S[N++] = ' '; sb(p, n); }
static void st(const char* s) { sb(s, strlen(s)); }
int sprintf(char*, const char*, ...);
static void si(i64 v, int w) { char b[300]; sprintf(b, sizeof(long) == 8 ? "%*ld" : "%*lld", w, v); st(b); }
static void sbool(int b, int w) { int n = b ? 4 : 5; sx(b ? "TRUE" : "FALSE", n, w < n ? n : w); }
static void out(int cap) { if (N > cap) N = cap; o_int(N, 1); o_chr(':'); o_mem(S, N); NL; }
static int sp(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static int dg(int c) { return (c >= '0') & (c <= '9'); }
static int Q, L; static u8 T[300];
static void rd(const void* p, int n) { memcpy(T, p, n); L = n; Q = 0; }
static i64 ri(void)
{
    while (Q < L && sp(T[Q])) Q++;
    int neg = 0;
    if (Q < L && T[Q] == '-') { neg = 1; Q++; }
    else if (Q < L && T[Q] == '+') Q++;
    ASSUME(Q < L && dg(T[Q]));
    u64 v = 0;
    while (Q < L && dg(T[Q])) v = v * 10 + (T[Q++] - '0');
    return (i64)(neg ? -v : v);
}
static int rc(void) { ASSUME(Q < L); return T[Q++]; }
"""


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, PRE + orc, **kw))


def M(name, decl, body, orc, exact=0, **kw):
    P(name, "program p;\n%s\nbegin\n%s\nend." % (decl, body), "void oracle(void) {\n  ml_exact = %d;\n%s\n}" % (exact, orc), **kw)


SHOW = "writeln(length(s):1, ':', s)"
# ---- writestr: every type, width and target capacity ----
for cap in (255, 1, 3, 6):
    ty = "string" if cap == 255 else "string[%d]" % cap
    D = "type r = record b: string[3]; s: %s; a: string[3] end; var v: r; " % ty
    B = "v.b := 'xyz'; v.a := 'pqr'; "
    E = "; writeln(length(v.s):1, ':', v.s); writeln(v.b, v.a)"
    O = " out(%d); o_txt(\"xyzpqr\\n\");" % cap
    M("integer into %s" % ty, D + "i, w: integer;", B + "read(i, w); writestr(v.s, i:w)" + E, "int i = in_range(-120,1100), w = in_pick(0,5); begin(); si(i,w);" + O)
    M("longint into %s" % ty, D + "i: longint;", B + "read(i); writestr(v.s, i)" + E, "i64 i = in_range64(-99999,999999); begin(); si(i,0);" + O)
    M("char into %s" % ty, D + "c: char; w: integer;", B + "read(c, w); writestr(v.s, c:w, c)" + E, "int c = in_chr(), w = in_pick(-1,4); begin(); sc(c,w); sc(c,0);" + O)
    M("boolean into %s" % ty, D + "i, w: integer;", B + "read(i, w); writestr(v.s, i > 0:w, i < 2)" + E, "int i = in_i32(), w = in_pick(-1,7); begin(); sbool(i > 0,w); sbool(i < 2,0);" + O)
    M("string into %s" % ty, D + "t: string[4];", B + "read(t); writestr(v.s, t, t)" + E, "u8 t[8]; int n = in_str(t,4); begin(); sb(t,n); sb(t,n);" + O)
    M("constant string into %s" % ty, D + "w: integer;", B + "read(w); writestr(v.s, 'ab':w, 'c', 'defg':w)" + E, "int w = in_pick(1,6); begin(); sx(\"ab\",2,w); st(\"c\"); sx(\"defg\",4,w);" + O)
    M("array of char into %s" % ty, D + "a: array[1..4] of char; i, w: integer;", B + "for i := 1 to 4 do read(a[i]); read(w); writestr(v.s, a, a:w)" + E,
      "u8 a[4]; for (int i = 0; i < 4; i++) { a[i] = in_chr(); ASSUME(a[i] != 0); } int w = in_pick(1,6); begin(); sb(a,4); sx(a,4,w);" + O)
    M("enumeration into %s" % ty, "type col = (red, green, darkorange);\n" + D + "c: col; i, w: integer;", B + "read(i, w); c := red; while i > 0 do begin c := succ(c); i := i - 1 end; writestr(v.s, c:w)" + E,
      "int i = in_pick(0,2), w = in_pick(0,6); static const char* n[] = { \"red\", \"green\", \"darkorange\" }; begin(); sx(n[i], strlen(n[i]), w);" + O)
    M("reals into %s" % ty, D + "i: integer; x: array[1..6] of real;", B + "x[1] := 1.5; x[2] := -2.25; x[3] := 0; x[4] := 1e100; x[5] := -3.125e-7; x[6] := 12345.678; read(i); writestr(v.s, x[i], x[i]:8:2, x[i]:10)" + E,
      "static const double x[] = { 1.5, -2.25, 0, 1e100, -3.125e-7, 12345.678 }; int i = in_pick(1,6); char b[400]; begin(); sprintf(b, \"% *.*E\", 13, 6, x[i-1]); st(b); sprintf(b, \"%*.*f\", 8, 2, x[i-1]); st(b); sprintf(b, \"% *.*E\", 10, 3, x[i-1]); st(b);" + O)
M("any integer", "var i: integer; s: string;", "read(i); writestr(s, i); " + SHOW, "i32 i = in_i32(); begin(); si(i,0); out(255);")
M("any longint", "var i: longint; s: string;", "read(i); writestr(s, i:4); " + SHOW, "i64 i = in_i64(); begin(); si(i,4); out(255);", opts=[["-O1"]])
M("several values", "type r = record x: integer; c: char end; var a: r; s: string; i: integer; b: boolean;",
  "read(a.x, a.c); b := a.c = 'x'; writestr(s, 'x=', a.x:4, ' ', a.c, ',', b, 7:3, -5, 'q':2); " + SHOW,
  "int x = in_range(-99,999), c = in_chr(); begin(); st(\"x=\"); si(x,4); st(\" \"); sc(c,0); st(\",\"); sbool(c == 'x',0); st(\"  7-5 q\"); out(255);")
M("the target is an argument", "var s: string; t: string[5];", "read(s); t := s; writestr(s, s, '-', s); " + SHOW + "; writestr(t, '<', t, '>'); writeln(t)",
  "u8 t[8]; int n = in_str(t,3); begin(); sb(t,n); st(\"-\"); sb(t,n); out(255); begin(); st(\"<\"); sb(t,n); st(\">\"); o_mem(S,N); NL;")
M("the target is selected", "type r = record n: string[4]; k: integer end; var a: array[1..3] of r; i: integer;", "for i := 1 to 3 do begin a[i].n := '-'; a[i].k := i end; read(i); writestr(a[i].n, i, i + 1); for i := 1 to 3 do writeln(a[i].n, a[i].k)",
  "int i = in_pick(1,3); for (int k = 1; k < 4; k++) { if (k == i) { o_int(k,1); o_int(k+1,1); } else o_chr('-'); o_int(k,1); NL; }", exact=1)
M("target through a pointer and a parameter", "type st = string[8]; ps = ^st; var p: ps; i: integer; procedure put(var s: st; n: integer); begin writestr(s, n, '.') end; function f(n: integer): st; var r: st; begin writestr(r, n:3); f := r end;",
  "read(i); new(p); put(p^, i); writeln(p^); writeln(f(i), f(i + 1))", "int i = in_range(0,998); o_int(i,0); o_chr('.'); NL; o_int(i,3); o_int(i+1,3); NL;", exact=1)
M("long result is cut", "var s: string; i, w: integer;", "read(w); writestr(s, 'abc', 5:w, 'de'); writeln(length(s):1, ' ', s[1], s[3], s[length(s) - 1], s[length(s)]); i := 77; writeln(i)",
  "int w = in_pick(248,256); begin(); st(\"abc\"); si(5,w); st(\"de\"); if (N > 255) N = 255; o_int(N,1); SP; o_chr('a'); o_chr('c'); o_chr(S[N-2]); o_chr(S[N-1]); NL; IL(77);")
M("the other variables keep their values", "var a, b: integer; s: string[2]; c, d: integer;", "read(a, b, c, d); writestr(s, a:1, b:1); writeln(a); writeln(b); writeln(c); writeln(d)",
  "int a = in_range(-99,999), b = in_range(0,50); i32 c = in_i32(), d = in_i32(); IL(a); IL(b); IL(c); IL(d);")
M("writing a text and writing to a string agree", "var s: string; i: integer; c: char; b: boolean;", "read(i, c); b := i > 4; writestr(s, i:5, c:3, b:7, 'xyz':2, i, c, b); writeln(s); writeln(i:5, c:3, b:7, 'xyz':2, i, c, b)",
  "int i = in_range(-50,50), c = in_chr(); for (int k = 0; k < 2; k++) { o_int(i,5); o_chrw(c,3); o_bool(i > 4,7); o_txt(\"xy\"); o_int(i,0); o_chr(c); o_bool(i > 4,0); NL; }", exact=1)

# ---- readstr ----
K = 6 if THOROUGH else 5
M("integer from any string", "var s: string; i: integer; c: char;", "read(s); readstr(s, i); writeln(i)", "u8 t[16]; int n = in_str(t,%d); rd(t,n); i64 v = ri(); IL((i32)v);" % K)
M("longint and the rest", "var s, t: string; i: longint;", "read(s); readstr(s, i, t); writeln(i); writeln(length(t):1, ':', t)", "u8 t[16]; int n = in_str(t,%d); rd(t,n); i64 v = ri(); IL(v); o_int(L-Q,1); o_chr(':'); o_mem(T+Q,L-Q); NL;" % K)
M("two integers", "var s: string; i, j: integer;", "read(s); readstr(s, i, j); writeln(i); writeln(j)", "u8 t[16]; int n = in_str(t,%d); rd(t,n); i64 v = ri(), w = ri(); IL((i32)v); IL((i32)w);" % K)
M("integer and character", "var s: string; i: integer; c, d: char;", "read(s); readstr(s, c, i, d); writeln(c, d); writeln(i)", "u8 t[16]; int n = in_str(t,%d); rd(t,n); int c = rc(); i64 v = ri(); int d = rc(); o_chr(c); o_chr(d); NL; IL((i32)v);" % K)
M("characters", "var s: string; a: array[1..3] of char; i: integer;", "read(s); readstr(s, a[1], a[2], a[3]); for i := 1 to 3 do writeln(a[i])", "u8 t[16]; int n = in_str(t,4); ASSUME(n >= 3); for (int i = 0; i < 3; i++) { o_chr(t[i]); NL; }")
for cap in (2, 4):
    M("string[%d] from a string" % cap, "type r = record b: string[3]; t: string[%d]; a: string[3] end; var v: r; s: string; c: char;" % cap, "v.b := 'xyz'; v.a := 'pqr'; read(s); readstr(s, v.t); writeln(length(v.t):1, ':', v.t); writeln(v.b, v.a)",
      "u8 t[16]; int n = in_str(t,6); begin(); sb(t,n); out(%d); o_txt(\"xyzpqr\\n\");" % cap)
M("array of char from a string", "type r = record b: string[3]; t: array[1..4] of char; a: string[3] end; var v: r; s: string; i: integer;", "v.b := 'xyz'; v.a := 'pqr'; v.t := '....'; read(s); readstr(s, v.t); for i := 1 to 4 do write(v.t[i]); writeln(v.b, v.a)",
  "u8 t[16]; int n = in_str(t,6); u8 b[4] = { '.', '.', '.', '.' }; memcpy(b, t, n < 4 ? n : 4); o_mem(b,4); o_txt(\"xyzpqr\\n\");")
for w in ("TRUE", "FALSE"):
    M("boolean " + w.lower(), "var s: string; b: array[1..3] of boolean;", "s := '?????'; %s s := copy(s, 1, %d); b[1] := true; b[2] := %s; b[3] := false; readstr(s, b[2]); writeln(ord(b[1]):1, ord(b[2]):1, ord(b[3]):1)"
      % (" ".join("read(s[%d]);" % (i + 1) for i in range(len(w))), len(w), "false" if w == "TRUE" else "true"),
      " ".join("{ int c = in_chr(); ASSUME((c == '%s') | (c == '%s')); }" % (c, c.lower()) for c in w) + " o_int(1,1); o_int(%d,1); o_int(0,1); NL;" % (w == "TRUE"))
M("reals from strings", "var s: string; x, y: real; i: integer;", "s := '1.5 -2.25e3'; readstr(s, x, y); writeln(x:8:3, y:9:1); s := ' 12'; readstr(s, x); writeln(x:5:1); s := '7 8.5'; readstr(s, i, x); writeln(i, x:5:1); s := '-0.5e-3rest'; readstr(s, x, s); writeln(x:9:5, s)",
  "o_real(1.5,8,3); o_real(-2250,9,1); NL; o_real(12,5,1); NL; o_int(7,0); o_real(8.5,5,1); NL; o_real(-0.0005,9,5); o_txt(\"rest\\n\");")
M("the same string twice", "var s: string; i, j: integer;", "read(s); readstr(s, i); readstr(s, j); writeln(i); writeln(j); writeln(s)", "u8 t[16]; int n = in_str(t,4); rd(t,n); i64 v = ri(); IL((i32)v); IL((i32)v); o_mem(t,n); NL;")
M("subranges and fields", "type r = record a: 0..99; c: 'a'..'z'; l: longint end; var v: r; s: string;", "s := '42x'; read(s[1], s[2], s[3]); readstr(s, v.a, v.c); writeln(v.a:1); writeln(v.c); s := '123456789012'; readstr(s, v.l); writeln(v.l); writeln(v.a:1)",
  "int a = in_chr(), b = in_chr(), c = in_chr(); ASSUME(dg(a) & dg(b) & (c >= 'a') & (c <= 'z')); int v = (a - '0') * 10 + b - '0'; o_int(v,1); NL; o_chr(c); NL; IL(123456789012ll); o_int(v,1); NL;")
M("parameters and recursion", "type st = string[6]; var s: st; function num(s: st): integer; var n: integer; t: st; begin readstr(s, n, t); if length(t) > 1 then begin num := n + num(t) end else num := n end;",
  "s := '1+2+3'; read(s[1], s[3], s[5]); writeln(num(s))", "int a = in_chr(), b = in_chr(), c = in_chr(); ASSUME(dg(a) & dg(b) & dg(c)); IL(a + b + c - 3 * '0');")

# ---- val ----
V = "ASSUME((v >= INT32_MIN) & (v <= INT32_MAX));"
M("val of integers", "var s: string; i: integer;", "read(s); val(s, i); writeln(i); writeln(s)", "u8 t[16]; int n = in_str(t,%d); rd(t,n); i64 v = ri(); IL((i32)v); o_mem(t,n); NL;" % K)
M("val of longints", "var s: string; i: longint;", "read(s); val(s, i); writeln(i)", "u8 t[16]; int n = in_str(t,%d); rd(t,n); i64 v = ri(); IL(v);" % K)
M("val of extremes", "var s: string; i: integer; l: longint;", "s := '-2147483648'; val(s, i); writeln(i); s := '2147483647'; val(s, i); writeln(i); s := '9223372036854775807'; val(s, l); writeln(l); s := '-9223372036854775808'; val(s, l); writeln(l); s := '0010'; val(s, i); writeln(i)",
  "IL(INT32_MIN); IL(INT32_MAX); IL(INT64_MAX); IL(INT64_MIN); IL(10);")
M("val of reals", "var s: string; x: real;", "s := '1.5'; val(s, x); writeln(x:8:3); s := ' -2.5e+2'; val(s, x); writeln(x:9:2); s := '33'; val(s, x); writeln(x:9:2)", "o_real(1.5,8,3); NL; o_real(-250,9,2); NL; o_real(33,9,2); NL;")
M("val of a long string", "var s, t: string; i: integer;", "t := '     '; s := ''; for i := 1 to 50 do s := s + t; s := s + '12345'; val(s, i); writeln(i); writeln(length(s):1)", "IL(12345); o_int(255,1); NL;")
M("val into elements and fields", "type r = record a, b: integer end; var a: array[1..3] of integer; v: r; s: string[4]; i: integer;", "for i := 1 to 3 do a[i] := -i; s := '77'; read(s[1], i); val(s, a[i]); val(s, v.b); for i := 1 to 3 do writeln(a[i]); writeln(v.b)",
  "int c = in_chr(), i = in_pick(1,3); ASSUME(dg(c)); int v = (c - '0') * 10 + 7; for (int k = 1; k < 4; k++) IL(k == i ? v : -k); IL(v);")

M("val into a subrange variable", "type t = 0..99; var s: string[4]; i: integer; v: t; a: array[1..3] of t; r: record x: -5..5 end;", "read(i); writestr(s, i); val(s, v); writeln(v); a[2] := 7; val(s, a[1]); val(s, a[3]); writeln(a[1], a[2]:3, a[3]:3); s := '-3'; val(s, r.x); writeln(r.x)",
  "int i = in_range(0,99); IL(i); I(i); o_int(7,3); o_int(i,3); NL; IL(-3);")

# ---- there and back ----
M("integer there and back", "var s: string; i, j: integer;", "read(i); writestr(s, i); readstr(s, j); writeln(j); val(s, j); writeln(j)", "i32 i = in_i32(); IL(i); IL(i);")
M("longint there and back", "var s: string; i, j: longint;", "read(i); writestr(s, i:25); readstr(s, j); writeln(j); val(s, j); writeln(j)", "i64 i = in_range64(-9999999999ll, 99999999999ll); IL(i); IL(i);", opts=[["-O1"]])
M("several there and back", "var s: string; i, j: integer; c, d: char; b, e: boolean;", "read(i, c); b := i < 5; writestr(s, i:4, c, b); readstr(s, j, d, e); writeln(j); writeln(d); writeln(ord(e):1)",
  "int i = in_range(-99,99), c = in_chr(); ASSUME(!dg(c)); IL(i); o_chr(c); NL; o_int(i < 5,1); NL;")
M("reals there and back", "var s: string; i: integer; x: array[1..6] of real; y, z: real;", "x[1] := 1.5; x[2] := -2.25; x[3] := 0; x[4] := 1e100; x[5] := -3.125e-7; x[6] := 12345.678; read(i); writestr(s, x[i]:25); readstr(s, y); val(s, z); writeln(ord(x[i] = y):1, ord(y = z):1)",
  "in_pick(1,6); o_int(1,1); o_int(1,1); NL;")

if __name__ == "__main__":
    run_tv("C16", progs, [["-O1"], ["-O0", "-m32"]] if not THOROUGH else [["-O0"], ["-O2"], ["-O1", "-m32"]], max_time=200,
           explanation="Each program is compiled by the real compiler and executed symbolically together with the runtime's writestr, readstr and val code; "
           "the digits of a number are symbolic bytes related to it by their defining equation, strings are symbolic in length and content. "
           "The solver decides equality with the text the oracle builds, with the numbers it parses, and the identity of converting there and back.",
           bounds={"symbolic string length": K, "integers": "all 32-bit values there and back; longints to 12 digits there and back, any in one direction",
                   "reals": "six values (formatting and parsing of reals is the C library's)", "widths": "0..7, 248..256"},
           assumptions=["snprintf, strtol, strtoll and strtod of the C library behave as specified (lib/minilibc.c)", "readstr and val of a number apply to a string that starts with one"])
