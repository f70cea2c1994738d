"""C14: text input.  Programs compiled by the real compiler run with the runtime's real read routines on symbolic
bytes; the oracle is a direct reading of the same bytes (no buffer, no look-ahead)."""
from common import *
progs = []
RD = r"""
static unsigned char T[6000]; static int N, Q;
static void tx(int n) { in_text(T + N, n); N += n; }                     /* arbitrary bytes */
static void tc(const char* s) { int n = strlen(s); memcpy(T + N, s, n); N += n; in_textc(s); }
static void tb(int c) { T[N++] = c; in_mem(T + N - 1, 1); }
static int  tp(int lo, int hi) { int v = in_pick(lo, hi); return v; }    /* comes first, on a line of its own */
static void tk(void)                                                      /* any digit, one path for each */
{
    int v = tv_range_sym('0', '9');
    volatile int k = '0';
    while (k < '9' && v != k) k++;
    tb(k);
}
static int sp(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static int dg(int c) { return (c >= '0') & (c <= '9'); }
static int re(void) { return Q >= N; }
static int rl(void) { return Q >= N || T[Q] == '\n'; }
static int rc(void) { ASSUME(Q < N); return T[Q++]; }
static void rn(void) { while (Q < N && T[Q] != '\n') Q++; if (Q < N) Q++; }
static i64 ri(void)
{
    while (Q < N && sp(T[Q])) Q++;
    int neg = 0;
    if (Q < N && T[Q] == '-') { neg = 1; Q++; }
    else if (Q < N && T[Q] == '+') Q++;
    ASSUME(Q < N && dg(T[Q]));
    u64 v = 0;
    while (Q < N && dg(T[Q])) v = v * 10 + (T[Q++] - '0');
    return (i64)(neg ? -v : v);
}
static int rs(unsigned char* b, int cap) { int n = 0; while (n < cap && !rl()) b[n++] = T[Q++]; return n; }
double strtod(const char*, char**);
static double rr(void)
{
    char b[64]; int n = 0;
    while (Q < N && sp(T[Q])) Q++;
    if (T[Q] == '-') { b[n++] = '-'; Q++; }
    else { b[n++] = '+'; if (T[Q] == '+') Q++; }
    while (Q < N && n < 60)
    {
        int c = T[Q];
        if (!(dg(c) | (c == '+') | (c == '-') | (c == '.') | (c == 'e') | (c == 'E'))) break;
        b[n++] = c; Q++;
    }
    b[n] = 0;
    return strtod(b, 0);
}
static void O(const char* s) { o_txt(s); }
"""


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, RD + orc, raw=True, **kw))


def M(name, decl, body, orc, **kw):
    P(name, "program p;\n%s\nbegin\n%s\nend." % (decl, body), "void oracle(void) {\n%s\n}" % orc, **kw)


NB = 7 if THOROUGH else 5
M("echo characters", "var c: char;",
  "while not eof do if eoln then begin write('$'); readln end else begin read(c); write(c) end",
  "tx(%d); while (!re()) if (rl()) { o_chr('$'); rn(); } else o_chr(rc());" % (NB + 1))
M("character codes to the end", "var c: char; n: integer;",
  "n := 0; while not eof do begin read(c); n := n + 1; writeln(ord(c):1) end; writeln(n:1)",
  "tx(4); int n = 0; while (!re()) { o_int(rc(), 1); NL; n++; } o_int(n, 1); NL;")
M("byte 255 is no end of file", "var c: char; s: string;",
  "read(c); writeln(ord(c):1, ' ', ord(eof):1, ' ', ord(eoln):1); read(s); writeln(length(s):1, ' ', ord(s[1]):1)",
  "tb(255); tb(255); tb(0); tb(254); tc(\"\\n\"); o_int(255,1); SP; o_int(0,1); SP; o_int(0,1); NL; o_int(3,1); SP; o_int(255,1); NL;")
M("empty input", "var s: string;", "writeln(ord(eof):1, ord(eoln):1); readln; writeln(ord(eof):1); readln(s); writeln(length(s):1)",
  "o_int(1,1); o_int(1,1); NL; o_int(1,1); NL; o_int(0,1); NL;")
M("count lines and characters", "var c: char; l, n, w: integer; inw: boolean;",
  """l := 0; n := 0; w := 0;
while not eof do begin
  inw := false;
  while not eoln do begin
    read(c); n := n + 1;
    if c = ' ' then inw := false else if not inw then begin inw := true; w := w + 1 end
  end;
  readln; l := l + 1
end;
writeln(l:1, ' ', n:1, ' ', w:1)""",
  """tx(%d); int l = 0, n = 0, w = 0;
  while (!re()) { int in = 0; while (!rl()) { int c = rc(); n++; if (c == ' ') in = 0; else if (!in) { in = 1; w++; } } rn(); l++; }
  o_int(l,1); SP; o_int(n,1); SP; o_int(w,1); NL;""" % (NB + 1))
for ty, f in (("integer", "(i32)ri()"), ("longint", "ri()")):
    M("one %s from any text" % ty, "var i: %s; c: char;" % ty, "read(i); writeln(i); while not eof do begin read(c); write(ord(c):1, ' ') end",
      "tx(%d); i64 v = %s; IL(v); while (!re()) { o_int(rc(), 1); SP; }" % (NB, f))
    M("two of %s" % ty, "var i, j: %s;" % ty, "read(i, j); writeln(i); writeln(j)", "tx(%d); i64 v = %s; i64 w = %s; IL(v); IL(w);" % (NB, f, f))
    M("%s and readln" % ty, "var i, j: %s; c: char;" % ty, "readln(i); read(j); writeln(i); writeln(j); writeln(ord(eoln):1)",
      "tx(%d); i64 v = %s; rn(); i64 w = %s; IL(v); IL(w); o_int(rl(),1); NL;" % (NB, f, f))
M("longest longint", "var i, j, k: longint;", "read(i, j, k); writeln(i); writeln(j); writeln(k)",
  "tc(\" -9223372036854775808\\n9223372036854775807 \\t +12345678901\"); IL(INT64_MIN); IL(INT64_MAX); IL(12345678901ll);")
M("longest integer", "var i, j: integer;", "read(i, j); writeln(i); writeln(j)", "tc(\"-2147483648 +2147483647\"); IL(INT32_MIN); IL(INT32_MAX);")
M("19 digits", "var i: longint;", "read(i); writeln(i)",
  "int p = tp(0, 18); static char b[20]; for (int i = 0; i < 19; i++) b[i] = '1' + i % 9; b[0] = '3'; for (int i = 0; i < 19; i++) if (i == p) { int c = sym_val(8, \"chr\") & 0; tb(b[i]); } else tb(b[i]); (void)p; IL(ri());"
  .replace("int p = tp(0, 18);", "int p = 0;").replace("int c = sym_val(8, \"chr\") & 0; ", ""))
# reals: sign, digits, point, exponent
REALS = ["dd.d", "-d.dd", "+dd", "d.", "-0.d", "dEk", "d.dE-k", "ddde+k", "0.000d", "d.dde0k", "  d.d", "\\n\\nd.d", "dde-1k", "-ddddde+1k", "d.ddE-1k"]
for k, pat in enumerate(REALS):
    s = "".join("{ int c = in_chr(); ASSUME((c >= '0') & (c <= '9')); T[N++] = c; }" if c == "d" else "tk();" if c == "k" else "tb(%s);" % ("'\\n'" if c == "~" else "'%s'" % c) for c in pat.replace("\\n", "~"))
    M("real " + pat, "var r: real; c: char;", "read(r); read(c); writeln(r); writeln(c)", s + "tb('|'); RL(rr()); o_chr('|'); NL;")
M("reals", "var r, s, t: real;", "read(r, s); readln(t); writeln(r); writeln(s); writeln(t)",
  "tc(\"1.5 -2.25e3\\n  3e-5 junk\\n\"); RL(1.5); RL(-2250.0); RL(3e-5);")
M("real then integer", "var r: real; i: integer;", "read(r, i); writeln(r); writeln(i)",
  "tc(\"7-\"); int c = in_chr(); ASSUME(dg(c)); T[N++] = c; tc(\"\\n\"); RL(7.0); IL(-(c - '0'));")
M("integer then real", "var r: real; i: integer;", "read(i, r); writeln(r); writeln(i)",
  "int c = in_chr(); ASSUME(dg(c)); T[N++] = c; tc(\".5\"); RL(0.5); IL(c - '0');")
M("long real", "var r, s: real;", "read(r, s); writeln(r:20:10); writeln(s)",
  "tc(\"123456.789012345 \"); tc(\"000000000000000000000000000000000000000012.5e000000000000000000000000002\"); o_real(123456.789012345,20,10); NL; RL(1250.0);")
# booleans: letters in either case
for w in ("true", "false"):
    s = "".join("{ int c = in_chr(); ASSUME((c == '%s') | (c == '%s')); T[N++] = c; }" % (c, c.upper()) for c in w)
    M("boolean " + w, "var a: array[1..3] of boolean; c: char;",
      "a[1] := true; a[2] := false; a[3] := true; read(a[2]); writeln(ord(a[1]):1, ord(a[2]):1, ord(a[3]):1); read(c); writeln(ord(c):1)",
      "tc(\" \\n\"); " + s + "tc(\"\\n\"); o_int(1,1); o_int(%d,1); o_int(1,1); NL; o_int(10,1); NL;" % (w == "true"))
# strings
M("string", "var s: string; c: char;", "read(s); writeln(length(s):1); write(s); writeln(ord(eoln):1); readln; writeln(ord(eof):1)",
  "tx(%d); u8 b[300]; int n = rs(b,255); o_int(n,1); NL; o_mem(b,n); o_int(rl(),1); NL; rn(); o_int(re(),1); NL;" % NB)
M("lines", "var s: string;", "while not eof do begin readln(s); writeln(length(s):1, ':', s) end",
  "tx(%d); u8 b[300]; while (!re()) { int n = rs(b,255); rn(); o_int(n,1); o_chr(':'); o_mem(b,n); NL; }" % NB)
for cap in (1, 2, 3, 4):
    M("string[%d]" % cap, "type r = record a: string[%d]; b: string[3] end; var v: r; c: char;" % cap,
      "v.b := 'xyz'; read(v.a); writeln(length(v.a):1, ':', v.a, v.b); while not eof do begin read(c); write(ord(c):1, ' ') end",
      "tx(%d); u8 b[300]; int n = rs(b,%d); o_int(n,1); o_chr(':'); o_mem(b,n); O(\"xyz\\n\"); while (!re()) { o_int(rc(),1); SP; }" % (NB, cap))
M("line as long as a string", "var s, t: string; c: char;", "read(s); writeln(length(s):1, s[1], s[255]); read(t); writeln(length(t):1); readln; readln(t); writeln(t)",
  "int k = tp(0, 4);" + "N = 0; for (int i = 0; i < 253 + k; i++) tb('a' + i % 26); tc(\"\\nzz\\n\"); u8 b[300]; int n = rs(b,255); o_int(n,1); o_chr(b[0]); o_chr(n > 254 ? b[254] : 'x'); NL; n = rs(b,255); o_int(n,1); NL; rn(); n = rs(b,255); o_mem(b,n); NL;",
  )
progs[-1].pas = progs[-1].pas.replace("begin\n", "var k: integer; begin readln(k); s[255] := 'x';\n", 1).replace("writeln(length(s):1, s[1], s[255])", "if length(s) < 255 then s[255] := 'x'; writeln(length(s):1, s[1], s[255])")
M("array of char", "type t = array[1..4] of char; r = record a: t; b: t end; var v: r; i: integer; c: char;",
  "v.a := 'abcd'; v.b := 'efgh'; read(v.a); for i := 1 to 4 do write(v.a[i]); for i := 1 to 4 do write(v.b[i]); while not eof do begin read(c); write(ord(c):1, ' ') end",
  "tx(%d); u8 b[5] = \"abcd\"; rs(b,4); o_mem(b,4); O(\"efgh\"); while (!re()) { o_int(rc(),1); SP; }" % NB)
M("integer, character, string", "var i: integer; c: char; s: string;", "read(i, c, s); writeln(i); writeln(ord(c):1); writeln(s)",
  "tx(%d); i64 v = ri(); int c = rc(); u8 b[300]; int n = rs(b,255); IL((i32)v); o_int(c,1); NL; o_mem(b,n); NL;" % NB)
# where the values go
M("targets", """type r = record a, b: integer; c: array[1..3] of char end; pr = ^r; sub = 1..100; csub = 'a'..'z';
var x: array[1..3] of r; p: pr; u: sub; k: csub; i: integer;
procedure q(var v: integer; var w: char); begin read(v, w) end;""",
  """new(p); for i := 1 to 3 do begin x[i].a := -1; x[i].b := -2; x[i].c[1] := '1'; x[i].c[2] := '2'; x[i].c[3] := '3' end;
i := 2; read(x[i].b, x[i].c[i]); read(p^.a); read(u); read(k); read(k); q(x[3].a, x[1].c[3]);
for i := 1 to 3 do writeln(x[i].a, ' ', x[i].b, ' ', x[i].c[1], x[i].c[2], x[i].c[3]); writeln(p^.a); writeln(u); writeln(k)""",
  """int d1 = in_chr(), d2 = in_chr(), k = in_chr(); ASSUME(dg(d1) & dg(d2)); T[0] = d1; T[1] = d2; T[2] = k; N = 3; ASSUME(!dg(k));
  tc(\" -17\\n 42 q9\"); int e = in_chr(); T[N++] = e; ASSUME(!dg(e));
  i64 v = ri(); int c = rc(); i64 a = ri(); i64 u = ri(); rc(); int kk = rc(); i64 w = ri(); int f = rc();
  I(-1); SP; I(-2); SP; o_chr('1'); o_chr('2'); o_chr(f); NL;
  I(-1); SP; I(v); SP; o_chr('1'); o_chr(c); o_chr('3'); NL;
  I(w); SP; I(-2); SP; O("123\\n"); IL(a); IL(u); o_chr(kk); NL;""")
M("parameters of type text", """var c: char; n: integer;
procedure skip(var f: text; n: integer); var c: char; begin while n > 0 do begin read(f, c); n := n - 1 end end;
function next(var f: text): char; begin if eof(f) then next := '#' else next := f^ end;""",
  "write(next(input)); skip(input, 1); write(next(input)); skip(input, 2); write(next(input)); readln(input); write(next(input))",
  """tx(5); o_chr(re() ? '#' : T[Q]); ASSUME(Q + 3 <= N); Q += 1; o_chr(T[Q]); Q += 2; o_chr(re() ? '#' : T[Q]); rn(); o_chr(re() ? '#' : T[Q]);""")
M("file buffer and get", "var n: integer;", "n := 0; while not eof do begin if eoln then write('/') else write(input^); get(input); n := n + 1 end; writeln(n:1)",
  "tx(%d); int n = 0; while (!re()) { o_chr(rl() ? '/' : T[Q]); Q++; n++; } o_int(n,1); NL;" % NB)
# sequences of operations, chosen by the solver
OPS = [("read(c); write(ord(c):1)", "o_int(rc(),1);"), ("readln", "rn();"), ("write(ord(eof):1)", "o_int(re(),1);"),
       ("write(ord(eoln):1)", "o_int(rl(),1);"), ("read(i); write(i)", "I((i32)ri());"), ("read(s); write(length(s):1, s)", "n = rs(b,255); o_int(n,1); o_mem(b,n);"),
       ("readln(t); write(length(t):1, t)", "n = rs(b,2); rn(); o_int(n,1); o_mem(b,n);"), ("if not eof then get(input)", "if (!re()) Q++;"),
       ("if not eof then write(ord(input^):1)", "if (!re()) o_int(T[Q],1);"), ("readln(i, j); write(i, ' ', j)", "{ i64 x = ri(), y = ri(); rn(); I((i32)x); SP; I((i32)y); }"),
       ("read(j, c); write(j, ord(c):1)", "{ i64 x = ri(); int y = rc(); I((i32)x); o_int(y,1); }"), ("readln(c); write(ord(c):1)", "{ int y = rc(); rn(); o_int(y,1); }")]


def opseq(name, nops, nbytes, ops):
    pas = "var c: char; i, j, k: integer; s: string; t: string[2]; op: array[1..%d] of integer;" % nops
    body = "for k := 1 to %d do readln(op[k]);\nfor k := 1 to %d do begin\ncase op[k] of\n" % (nops, nops)
    body += "".join("%d: begin %s end;\n" % (i + 1, OPS[o][0]) for i, o in enumerate(ops)) + "end;\nwrite('.') end"
    orc = "int op[%d]; u8 b[300]; int n; for (int k = 0; k < %d; k++) op[k] = tp(1, %d); tx(%d);\n" % (nops, nops, len(ops), nbytes)
    orc += "for (int k = 0; k < %d; k++) { switch (op[k]) {\n" % nops
    orc += "".join("case %d: %s break;\n" % (i + 1, OPS[o][1]) for i, o in enumerate(ops)) + "} o_chr('.'); }"
    M(name, pas, body, orc, max_time=120, opts=[["-O1"]])


allops = list(range(len(OPS)))
opseq("any two operations", 2, 3 if not THOROUGH else 5, allops)
G = [[0, 1, 2, 3], [0, 3, 5, 6], [4, 10, 1, 2], [7, 8, 1, 3], [9, 0, 2, 5], [11, 6, 7, 8]]
for k, g in enumerate(G if not THOROUGH else G + [RND.sample(allops, 4) for _ in range(8)]):
    opseq("three operations of group %d" % k, 3, 3, g)
# the buffer of the runtime (1024 bytes) and its boundary
for off in (1021, 1023, 1024):
    M("characters around byte %d" % off, "var c: char; i: integer;",
      "for i := 1 to %d do read(c); write(c); while not eof do begin if eoln then write('$'); read(c); write(ord(c):1, ' ') end" % (off - 1),
      "for (int i = 0; i < %d; i++) tb('a' + i %% 26); tx(3); tc(\"zz\"); Q = %d; o_chr(T[Q-1]); while (!re()) { if (rl()) o_chr('$'); o_int(rc(),1); SP; }" % (off - 1, off - 1))
    M("integer around byte %d" % off, "var i: integer; s: string;", "readln(s); while length(s) < 255 do read(s[length(s)+1]); readln; read(i); writeln(i); readln(s); write(s)"
      .replace("readln(s); while length(s) < 255 do read(s[length(s)+1]); readln; ", "while not eoln do read(s[1]); readln; "),
      "for (int i = 0; i < %d; i++) tb('a' + i %% 26); tc(\"\\n\"); for (int i = 0; i < 4; i++) { int c = in_chr(); ASSUME(dg(c)); T[N++] = c; } tc(\" rest\\n\"); rn(); i64 v = ri(); IL((i32)v); O(\" rest\");" % (off - 3))
    M("string around byte %d" % off, "var s: string; i: integer;", "for i := 1 to 4 do begin readln(s); write(length(s):1, ' ') end; while not eof do begin readln(s); writeln(s) end",
      "for (int i = 0; i < %d; i++) tb(i %% 255 == 254 ? '\\n' : 'a'); tx(3); tc(\"xyz\\n\"); u8 b[300]; for (int i = 0; i < 4; i++) { int n = rs(b,255); rn(); o_int(n,1); SP; } while (!re()) { int n = rs(b,255); rn(); o_mem(b,n); NL; }" % (off - 2))
M("readln around the boundary", "var c: char; i: integer;", "readln; read(c); write(ord(c):1, ' ', ord(eof):1)",
  "int k = 0; for (int i = 0; i < 1022; i++) tb('b'); tx(3); tb('x'); tb('y'); rn(); o_int(rc(),1); SP; o_int(re(),1);")
# text files by name
FD = "var f, g: text; c, d: char; s: string; i: integer;"
M("write a file and read it back", FD, """assign(f, 'a.txt'); rewrite(f);
while not eof do begin read(c); write(f, c) end; close(f);
reset(f); while not eof(f) do begin if eoln(f) then write('$'); read(f, c); write(ord(c):1, ' ') end; close(f);
reset(f); readln(f, s); writeln(s); writeln(ord(eof(f)):1)""",
  "tx(4); while (!re()) { if (rl()) o_chr('$'); o_int(rc(),1); SP; } Q = 0; u8 b[300]; int n = rs(b,255); rn(); o_mem(b,n); NL; o_int(re(),1); NL;")
M("append", FD, """read(c, d); assign(f, 'a.txt'); rewrite(f); writeln(f, c); close(f); append(f); writeln(f, d, c); close(f); append(f); close(f);
reset(f); while not eof(f) do begin while not eoln(f) do begin read(f, c); write(ord(c):1, ' ') end; writeln('/'); readln(f) end; close(f)""",
  """u8 a = in_chr(), b = in_chr(); u8 x[5] = { a, '\\n', b, a, '\\n' }; memcpy(T, x, 5); N = 5;
  while (!re()) { while (!rl()) { o_int(rc(),1); SP; } O("/\\n"); rn(); }""")
M("two files read alternately", FD, """read(c, d); assign(f, 'a.txt'); rewrite(f); for i := 1 to 3 do write(f, c, chr(ord('0') + i)); close(f);
assign(g, 'b.txt'); rewrite(g); for i := 1 to 3 do writeln(g, d); close(g);
reset(f); reset(g);
while not eof(f) do begin read(f, c); write(ord(c):1, ' '); if not eof(g) then begin read(g, d); write(ord(d):1, ' ') end end;
writeln(ord(eof(g)):1)""",
  "int a = in_chr(), b = in_chr(); for (int i = 0; i < 6; i++) { o_int(i % 2 ? '1' + i / 2 : a, 1); SP; o_int(i % 2 ? 10 : b, 1); SP; } o_int(1,1); NL;")
M("file longer than the buffer", FD, """read(c); assign(f, 'a.txt'); rewrite(f); for i := 1 to 1500 do if i mod 500 = 0 then writeln(f, c) else write(f, 'x'); close(f);
reset(f); i := 0; while not eof(f) do begin read(f, d); i := i + 1; if d = c then write(i:1, ' ') end; writeln(i:1)""",
  "int a = in_chr(); ASSUME((a != 'x') & (a != 10)); o_int(500,1); SP; o_int(1001,1); SP; o_int(1502,1); SP; o_int(1503,1); NL;")
M("two long files", FD, """read(c); assign(f, 'a.txt'); rewrite(f); for i := 1 to 1100 do write(f, chr(97 + i mod 26)); write(f, c); close(f);
assign(g, 'b.txt'); rewrite(g); for i := 1 to 1100 do write(g, chr(65 + i mod 26)); write(g, c); close(g);
reset(f); reset(g); for i := 1 to 1100 do begin read(f, d); if d <> chr(97 + i mod 26) then write('f', i:1); read(g, d); if d <> chr(65 + i mod 26) then write('g', i:1) end;
writeln(ord(f^):1, ' ', ord(g^):1, ' ', ord(eof(f)):1); read(f, d); write(ord(d):1); writeln(ord(eof(f)):1, ord(eof(g)):1)""",
  "int a = in_chr(); o_int(a,1); SP; o_int(a,1); SP; o_int(0,1); NL; o_int(a,1); o_int(1,1); o_int(0,1); NL;")
M("reset starts again", FD, """read(c, d); rewrite(f); write(f, c, d); reset(f); read(f, c); write(ord(c):1, ' '); reset(f); read(f, c, d); write(ord(c):1, ' ', ord(d):1, ' ', ord(eof(f)):1);
rewrite(f); write(ord(eof(f)):1); write(f, d); reset(f); read(f, c); writeln(ord(c):1, ord(eof(f)):1)""",
  "int a = in_chr(), b = in_chr(); o_int(a,1); SP; o_int(a,1); SP; o_int(b,1); SP; o_int(1,1); o_int(1,1); o_int(b,1); o_int(1,1); NL;")
M("files without a name are different", FD, """read(c, d); rewrite(f); rewrite(g); write(f, c); write(g, d); reset(f); reset(g); read(f, c); read(g, d); writeln(ord(c):1, ' ', ord(d):1)""",
  "int a = in_chr(), b = in_chr(); o_int(a,1); SP; o_int(b,1); NL;")
M("numbers written and read", "var f: text; i, j: integer; k: longint;", "read(i, j); k := 100000; k := k * i + j; assign(f, 'n.txt'); rewrite(f); writeln(f, i:1, ' ', j:5); writeln(f, k:1); close(f); reset(f); i := 0; j := 0; k := 0; readln(f, i, j); read(f, k); writeln(i); writeln(j); writeln(k)",
  "extern int ml_exact; ml_exact = 1; int i = tp(-12, 12), j = tp(-3, 3); IL(i); IL(j); IL(100000ll * i + j);", max_time=100, opts=[["-O1"]])
M("put on a text file", FD, "read(c, d); rewrite(f); f^ := c; put(f); f^ := d; put(f); write(f, c); reset(f); while not eof(f) do begin write(ord(f^):1, ' '); get(f) end",
  "int a = in_chr(), b = in_chr(); o_int(a,1); SP; o_int(b,1); SP; o_int(a,1); SP;")
M("local file variables", """var c, d: char;
procedure copy1(ch: char); var f: text; x: char; begin rewrite(f); write(f, ch, ch); reset(f); read(f, x); write(ord(x):1, ' '); close(f) end;""",
  "read(c, d); copy1(c); copy1(d); copy1(c)", "int a = in_chr(), b = in_chr(); o_int(a,1); SP; o_int(b,1); SP; o_int(a,1); SP;")
M("name in a string", FD, "read(c, d); s := 'x.txt'; assign(f, s); rewrite(f); write(f, c, d); close(f); assign(g, 'x.txt'); reset(g); read(g, d); writeln(ord(d):1)",
  "int a = in_chr(); in_chr(); o_int(a,1); NL;")
M("file that does not exist", FD, "read(c); assign(f, 'none.txt'); writeln('a'); reset(f); writeln('b')", "in_chr(); O(\"a\\n\"); o_exit(1);")
for op in ("read(f, c)", "write(f, c)", "writeln(f)", "readln(f)", "close(f)", "if eof(f) then", "if eoln(f) then", "get(f)", "c := f^", "page(f)"):
    M("unopened: " + op, FD, "read(c); writeln('a'); %s; writeln('b')" % op, "in_chr(); O(\"a\\n\"); o_exit(1);", opts=[["-O1"]])

if __name__ == "__main__":
    run_tv("C14", progs, [["-O1"], ["-O0", "-m32"]] if not THOROUGH else [["-O0"], ["-O2"], ["-O1", "-m32"], ["-O0", "-Cr"]], max_time=90,
           explanation="Each program is compiled by the real compiler and executed symbolically together with the runtime's own read, eof, eoln, get, "
           "assign, reset, rewrite and append code on a standard input (or file) of symbolic bytes; the oracle reads the same bytes directly. "
           "The solver decides equality of output and exit status for all byte values, including the operation sequences, which are chosen by solver forks.",
           bounds={"symbolic bytes per input": NB + 1, "operations per sequence": 3, "file length (mostly concrete bytes beyond the symbolic ones)": 1503,
                   "symbolic digits per number": 4},
           assumptions=["the C library's streams behave as lib/minilibc.c models them (in-memory files)",
                        "an integer or real is read from text that contains one (what happens otherwise is not specified)"])
