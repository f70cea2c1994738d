"""C22: memory safety of the runtime library.  Programs compiled by the real compiler drive every runtime function with
objects of exactly the size of their type (globals, fields between guards, heap) and arbitrary contents and arguments.
Every load and store of the program and the runtime is checked against the object it was made for; what is read before it
was written is an arbitrary value, so the comparison with the oracle's output fails when it reaches a result."""
from common import *
progs = []
D = 'o_txt("done\\n");'
PRE = r"""
static int dg(int c) { return (c >= '0') & (c <= '9'); }
static int sp(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
"""


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, PRE + orc, **kw))


def M(name, decl, body, orc, **kw):
    P(name, "program p;\n%s\nbegin\n%s\nend." % (decl, body), "extern int ml_exact;\nvoid oracle(void) {\nml_exact = 1;\n%s\n}" % orc, **kw)


def R(name, decl, body, orc, **kw):
    M(name, decl, body, "static unsigned char T[400]; (void)T;" + orc, raw=True, **kw)


K = 6 if THOROUGH else 4
S4 = "type s4 = string[4]; p4 = ^s4; rec = record g: char; s: s4; h: char end; prec = ^rec; "
ALLOC = "new(p); new(r); p^ := ''; r^.g := 'G'; r^.h := 'H'; r^.s := ''; "
GUARD = "writeln(r^.g, r^.h, length(p^):1, length(r^.s):2);"


def guard(n, m):
    return 'o_txt("GH"); o_int(%s,1); o_int(%s,2); NL;' % (n, m)


# ---- strings of exact size ----
STR = [("assign", "t", "l", "l"), ("assign both ways", "t + ''", "l", "l"), ("concat", "t + u", "l + m", "l + m"), ("concat three", "t + u + t", "2*l + m", "2*l + m"),
       ("concat with a char", "t + 'x'", "l + 1", "l + 1"), ("concat char first", "'x' + t", "l + 1", "l + 1"), ("concat of a function", "trim('  ab') + t", "l + 2", "l + 2"), ("longer literal", "'literal longer' + t", "14 + l", "14 + l")]
for nm, ex, n, m in STR:
    M("exact strings: " + nm, S4 + "var p: p4; r: prec; t, u: string[%d]; c: char;" % K, ALLOC + "read(t); read(u); p^ := %s; r^.s := %s; %s" % (ex, ex, GUARD),
      "unsigned char a[%d], b[%d]; int l = in_str(a,%d), m = in_str(b,%d); int n = %s; if (n > 4) n = 4; %s" % (K, K, K, K, n, guard("n", "n")))
M("exact strings: read", S4 + "var p: p4; r: prec;", ALLOC + "read(p^); read(r^.s); " + GUARD,
  "unsigned char a[4]; int l = in_str(a,4), m = in_str(a,4); " + guard("l", "m"))
M("exact strings: trim", S4 + "var p: p4; r: prec; t: string[3];", ALLOC + "read(t); p^ := t; p^ := trim(p^); r^.s := trim(t + ' '); writeln(r^.g, r^.h, ord(length(p^) = length(r^.s)):1);",
  "unsigned char a[3]; in_str(a,3); o_txt(\"GH1\\n\");")
M("trim of what is at the ends", S4 + "var p: p4; i: integer; c: char;", "new(p); read(p^); p^ := trim(p^); p^ := trim(''); p^ := trim(' '); writeln(length(p^):1, length(trim('    ')):1)",
  "unsigned char a[4]; in_str(a,4); o_txt(\"00\\n\");")
M("exact strings: index", S4 + "var p, q: p4; i: integer;", "new(p); new(q); read(p^); read(q^); i := index(p^, q^); writeln(ord((i >= 0) and (i <= 4)):1)",
  "unsigned char a[4]; in_str(a,4); in_str(a,4); o_int(1,1); NL;")
M("exact strings: compare", S4 + "var p, q: p4; i: integer;", "new(p); new(q); read(p^); read(q^); i := ord(p^ = q^) + ord(p^ < q^) + ord(p^ > q^); writeln(i:1, ord((p^ <= q^) = not (p^ > q^)):1)",
  "unsigned char a[4]; in_str(a,4); in_str(a,4); o_txt(\"11\\n\");")
M("exact strings: val", S4 + "var p: p4; i: integer; l: longint; x: real; k: integer;", "new(p); p^ := '    '; for k := 1 to 4 do begin read(i); p^[k] := chr(i) end; val(p^, i); val(p^, l); writeln(ord(i = l):1)",
  "for (int k = 0; k < 4; k++) in_range(32, 64); o_int(1,1); NL;")
M("exact strings: val fills the buffer", "type s = string; ps = ^s; var p: ps; i, k: integer; l: longint; x: real;", "new(p); p^ := ''; for k := 1 to 255 do p^ := p^ + '0'; read(i); p^[255] := chr(i); val(p^, k); writeln(k); val(p^, l); writeln(l); val(p^, x); writeln(trunc(x))",
  "int i = in_pick(48, 57); IL(i - 48); IL(i - 48); IL(i - 48);")
M("255 characters", "type ps = ^string; rec = record g: char; s: string; h: char end; prec = ^rec; var p: ps; r: prec; k: integer; c: char; t: string[4];",
  "new(p); new(r); r^.g := 'G'; r^.h := 'H'; p^ := ''; for k := 1 to 250 do p^ := p^ + chr(k); read(t); p^ := p^ + t + t; r^.s := p^ + 'x'; r^.s := r^.s + r^.s; p^ := r^.s + p^; writeln(r^.g, r^.h, length(p^):4, length(r^.s):4, ord(p^[250]):4, index(p^, t):4)",
  "unsigned char a[4]; int l = in_str(a,4); ASSUME(l == 0 || a[0] == 251); for (int i = 1; i < l; i++) ASSUME(a[i] != 251); int n = 250 + 2*l; if (n > 254) n = 255; o_txt(\"GH\"); o_int(255,4); o_int(255,4); o_int(250,4); o_int(l == 0 ? 1 : 251,4); NL;", opts=[["-O1"]])
M("255 characters through functions", "type sf = string; ps = ^string; var p, q: ps; k: integer; s: sf; function f(t: sf): sf; begin f := t + t end;",
  "new(p); new(q); p^ := ''; read(k); while length(p^) < k do p^ := p^ + 'y'; q^ := f(p^); q^ := trim(q^ + p^); s := p^ + q^; writeln(length(q^):4, length(s):4, ord(q^ = f(f(p^))):2, index(q^, p^):4)",
  "int k = in_pick(252, 255); o_int(255,4); o_int(255,4); o_int(1,2); o_int(1,4); NL;", opts=[["-O1"]])
M("writestr to exact strings", S4 + "var p: p4; r: prec; i: integer; c: char; b: boolean;", ALLOC + "read(c); read(i); writestr(p^, c, i:3, c); writestr(r^.s, 1.5:i:1, c:i, 'abc':i, i < 3:i); " + GUARD,
  "in_chr(); int i = in_pick(-2, 9); " + guard("4", "4"))
M("writestr of much text", "type ps = ^string; rec = record g: char; s: string; h: char end; prec = ^rec; var r: prec; w: integer; c: char; e: (one, two); s: string; a: array[1..9] of char;",
  "new(r); r^.g := 'G'; r^.h := 'H'; read(w); read(c); e := two; s := 'string'; a := 'charactrs'; "
  "writestr(r^.s, c:w); writeln(length(r^.s):1); writestr(r^.s, 1:w); writeln(length(r^.s):1); writestr(r^.s, 2.5:w:1); writeln(length(r^.s):1); writestr(r^.s, s, 2.5:w); writeln(length(r^.s):1); "
  "writestr(r^.s, true:w); writeln(length(r^.s):1); writestr(r^.s, a:w); writeln(length(r^.s):1); writestr(r^.s, e:w); writeln(length(r^.s):1); writestr(r^.s, 'x':w, c:w, 5:w, s, a); writeln(length(r^.s):1); writeln(r^.g, r^.h)",
  "int w = in_pick(253, 257), n = w > 255 ? 255 : w; in_chr(); for (int k = 0; k < 8; k++) { o_int(k == 7 || k == 3 ? 255 : n,1); NL; } o_txt(\"GH\\n\");", opts=[["-O1"]])
M("widths of a thousand", "var s: string; w: integer;", "read(w); writestr(s, 1:w, 2.5:w, 2.5:w:w, true:w, 'c':w); writeln(length(s):1); writestr(s, 2.5:1:w); writeln(length(s):1)",
  "int w = in_pick(998, 1000); o_int(255,1); NL; o_int(255,1); NL;", opts=[["-O1"]])
M("precision", "var s: string; p: integer;", "read(p); writestr(s, 1.0:1:p); writeln(length(s):1, s[1])", "int p = in_pick(240, 300); o_int(p + 2 > 255 ? 255 : p + 2,1); o_txt(\"1\\n\");", opts=[["-O1"]])
M("largest reals", "var s: string; p: integer; x: real;", "read(p); if p = 1 then x := maxreal else x := -maxreal; writestr(s, x:1:2); writeln(length(s):1); writestr(s, x:p); writeln(length(s):1)",
  "int p = in_pick(1, 2); o_int(255,1); NL; o_int(p == 2 ? 9 : 9,1); NL;", opts=[["-O1"]])

# ---- any value in a variable of an enumeration ----
for w in (0, 5, 30):
    M("enumeration variable holding any value :%d" % w, "type c = (red, green, blue); u = record case boolean of true: (e: c); false: (i: integer) end; var v: u; s: string; k: integer;",
      "read(v.i); write(v.e:%d); writestr(s, v.e:%d); writeln(length(s):1)" % (w, w) if w else "read(v.i); write(v.e); writestr(s, v.e); writeln(length(s):1)",
      "static const char* nm[] = {\"red\", \"green\", \"blue\", \"Invalid Enum Value\"}; i32 v = in_i32(); int k = 0; while (k < 3 && v != k) k++; int l = strlen(nm[k]), w = %d; "
      "if (w && l > w) l = w; for (int i = l; i < w; i++) SP; for (int i = 0; i < l; i++) o_chr(nm[k][i]); o_int(w ? w : l,1); NL;" % w)
M("boolean variable holding any value", "type u = record case boolean of true: (b: boolean); false: (c: char) end; var v: u; s: string;", "read(v.c); writestr(s, v.b, v.b:9); writeln(ord((length(s) = 13) or (length(s) = 14)):1)", "in_chr(); o_int(1,1); NL;".replace("in_chr()", "int c = in_chr(); ASSUME(c < 2)"))
# ---- parameters of the program ----
M("paramstr of any number", "var i: integer; s: string;", "read(i); s := paramstr(i); writeln(length(s):1, length(paramstr(i)):2, paramcount:2)", "i32 i = in_i32(); ASSUME(i != 0); o_txt(\"0 0 0\\n\");")
M("paramstr(0) is in bounds", "var s: string;", "s := paramstr(0); writeln(ord(length(s) > 0):1)", "o_int(1,1); NL;")
# ---- dates ----
M("timestamp is filled in", "var t: array[0..2] of timestamp; ok: boolean;", "t[0].year := 1; t[2].year := 2; gettimestamp(t[1]); with t[1] do ok := dateValid and timeValid and (month >= 1) and (month <= 12) and (day >= 1) and (day <= 31) and (hour >= 0) and (hour < 24) and (minute >= 0) and (minute < 60) and (second >= 0) and (second < 62) and (microsecond >= 0) and (microsecond < 1000000); writeln(ok, t[0].year:2, t[2].year:2)",
  'o_txt("TRUE"); o_int(1,2); o_int(2,2); NL;')
M("timestamp in a local variable", "procedure q(n: integer); var t: timestamp; begin if n > 0 then q(n - 1); gettimestamp(t); writeln(ord((t.microsecond >= 0) and (t.microsecond < 1000000)):1) end;", "q(2)", "for (int i = 0; i < 3; i++) { o_int(1,1); NL; }")
for nm, fn, f1, f2, f3, sep, w1 in (("time", "time", "hour", "minute", "second", ":", 2), ("date", "date", "year", "month", "day", "-", 4)):
    M(nm + " of any timestamp", "var t: timestamp; v: array[0..6] of integer; i, j, k: integer; s: string; u: string[3];",
      "v[0] := 0; v[1] := 7; v[2] := 59; v[3] := 12345; v[4] := -8; v[5] := maxint; v[6] := -maxint; read(i, j, k); t.%s := v[i]; t.%s := v[j]; t.%s := v[k]; s := %s(t); writeln(s); writeln(%s(t)); u := %s(t); writeln(u, '.'); writeln(length('<' + %s(t) + '>'):1)" % (f1, f2, f3, fn, fn, fn, fn),
      "static const char* v[7] = {%s}; static const char* w[7] = {\"00\",\"07\",\"59\",\"12345\",\"-8\",\"2147483647\",\"-2147483647\"}; int i = in_pick(0,6), j = in_pick(0,6), k = in_pick(0,6); "
      "char b[48]; b[0] = 0; strcat(b, v[i]); strcat(b, \"%s\"); strcat(b, w[j]); strcat(b, \"%s\"); strcat(b, w[k]); o_txt(b); NL; o_txt(b); NL; o_mem(b, 3); o_txt(\".\\n\"); o_int(strlen(b) + 2,1); NL;"
      % ('"00","07","59","12345","-8","2147483647","-2147483647"' if w1 == 2 else '"0000","0007","0059","12345","-008","2147483647","-2147483647"', sep, sep), opts=[["-O1"]])

# ---- sets, arrays ----
for nm, ty, n in (("set of char", "set of char", 256), ("set of 0..31", "set of 0..31", 32), ("set of 0..32", "set of 0..32", 33), ("set of 0..63", "set of 0..63", 64), ("set of 5..200", "set of 5..200", 196)):
    base = "char" if "char" in nm else "integer"
    lo = 5 if "5..2" in nm else 0
    el = (lambda e: "chr(%s)" % e) if base == "char" else (lambda e: e)
    M("exact sets: " + nm, "type st = %s; ps = ^st; var p, q, r: ps; i, j: integer;" % ty,
      "new(p); new(q); new(r); read(i, j); p^ := [%s]; q^ := [%s, %s]; r^ := p^ + q^; r^ := r^ * p^; r^ := r^ - q^; r^ := p^ >< q^; writeln(ord(p^ <= q^):1, ord(p^ = r^):1, ord(%s in q^):1, ord(%s in r^):1)"
      % (el("i"), el("i"), el("j"), el("j"), el("i")),
      "int i = in_range(%d,%d), j = in_range(%d,%d); ASSUME(i != j); o_int(1,1); o_int(0,1); o_int(1,1); o_int(0,1); NL;" % (lo, lo + n - 1, lo, lo + n - 1), opts=[["-O1"], ["-O0"]])
M("exact char arrays", "type a = packed array[1..3] of char; pa = ^a; var p, q: pa; c: char; i: integer;", "new(p); new(q); for i := 1 to 3 do begin read(c); p^[i] := c; read(c); q^[i] := c end; i := ord(p^ = q^) + ord(p^ < q^) + ord(p^ > q^); p^ := q^; writeln(i:1, ord(p^ = q^):1)",
  "for (int i = 0; i < 6; i++) in_chr(); o_txt(\"11\\n\");")
M("pack and unpack to the ends", "type u = array[1..5] of integer; v = packed array[0..2] of integer; pu = ^u; pv = ^v; var p: pu; q: pv; i, x: integer;",
  "new(p); new(q); read(i); for x := 1 to 5 do p^[x] := x; pack(p^, i, q^); for x := 0 to 2 do write(q^[x]); for x := 0 to 2 do q^[x] := 7; unpack(q^, p^, i); for x := 1 to 5 do write(p^[x]); writeln",
  "int i = in_pick(1,3); for (int x = 0; x < 3; x++) I(i + x); for (int x = 1; x < 6; x++) I(x >= i && x < i + 3 ? 7 : x); NL;")

# ---- readstr ----
M("readstr to the end of the string and beyond", S4 + "var p: p4; s: s4; c, d: char; t: string[2]; a: packed array[1..3] of char;", "new(p); read(p^); readstr(p^, c, t, s); readstr(p^, s, t); readstr(p^, p^); a := 'xyz'; readstr(p^, a); writeln(length(s) + length(t) - length(p^):1)",
  "unsigned char a[4]; in_str(a,4); o_int(0,1); NL;")
M("readstr inside a function that readstr uses", "type s8 = string[8]; var s: s8; i, j, k: integer; function f(n: integer): integer; var v: integer; t: s8; begin t := '42 17'; readstr(t, v, i); f := v + n end;",
  "read(k); s := '1 2 3'; readstr(s, i, j); writeln(f(k):1, i:3, j:2); readstr(s, k); writeln(k:1)", "int k = in_range(0,99); o_int(42 + k,1); o_int(17,3); o_int(2,2); NL; o_int(1,1); NL;")
M("readstr nested on the same string", "var s: string; a, b, c: integer; procedure q; begin readstr(s, c) end; function g: integer; begin readstr(s, b); g := b end;",
  "read(a); writestr(s, a:3, ' 5 6'); readstr(s, a); q; writeln(a + g + c:1)", "int a = in_range(10,99); o_int(3 * a,1); NL;")
# ---- binding ----
BD = "var f: text; b: bindingtype; r: record g: char; b: bindingtype; h: char end; s: string; i: integer; "
M("binding gives the name back", BD, "read(s); assign(f, s); r.g := 'G'; r.h := 'H'; r.b := binding(f); b := binding(f); writeln(r.g, r.h, ord(b.bound):1, ord(b.name = s):1, ord(r.b.name = b.name):1)",
  "unsigned char a[4]; int l = in_str(a,4); for (int i = 0; i < l; i++) ASSUME(a[i] != 0); o_txt(\"GH111\\n\");")
M("binding of a long name", BD, "read(i); s := ''; while length(s) < i do s := s + 'n'; assign(f, s); b := binding(f); writeln(length(b.name):1, ord(b.bound):1, ord(b.name = s):1); unbind(f); b := binding(f); writeln(ord(b.bound):1, length(b.name):1); b.name := s; bind(f, b); b := binding(f); writeln(length(b.name):1)",
  "int i = in_pick(250, 255); o_int(i,1); o_txt(\"11\\n00\\n\"); o_int(i,1); NL;", opts=[["-O1"]])
M("bind, unbind, bind", BD, "assign(f, 'first'); b := binding(f); unbind(f); unbind(f); read(b.name); bind(f, b); r.b := binding(f); writeln(ord(r.b.bound):1, ord(r.b.name = b.name):1)",
  "unsigned char a[3]; int l = in_str(a,3); for (int i = 0; i < l; i++) ASSUME(a[i] != 0); o_txt(\"11\\n\");")
M("binding of a file that has no name", BD, "b := binding(f); writeln(ord(b.bound):1, length(b.name):1); bind(f, b); unbind(f); writeln('done')", "o_txt(\"00\\ndone\\n\");")
M("unbound file gets a file of its own", "type ft = file of integer; var f, g: ft; i: integer;", "assign(f, 'x.dat'); unbind(f); read(i); rewrite(f); rewrite(g); write(f, i); write(g, i + 1); reset(f); reset(g); writeln(f^); writeln(g^)", "ml_exact = 0; i32 i = in_i32(); IL(i); IL(wadd(i,1));")

# ---- files that cannot be opened ----
for op in ("rewrite", "append", "reset"):
    for ty in ("text", "file of integer"):
        for name, nm in (("'nodir/x.dat'", "in no directory"), ("''", "with an empty name")):
            M("%s of a %s %s" % (op, ty, nm), "type ft = %s; var f: ft; i: integer;" % ty, "read(i); assign(f, %s); writeln('before'); %s(f); writeln('after')" % (name, op), "in_i32(); o_txt(\"before\\n\"); o_exit(1);")
            M("%s of a %s %s after another file" % (op, ty, nm), "type ft = %s; var f: ft; i: integer;" % ty, "read(i); assign(f, 'good.dat'); rewrite(f); close(f); assign(f, %s); writeln('before'); %s(f); writeln('after')" % (name, op), "in_i32(); o_txt(\"before\\n\"); o_exit(1);")
TD = "var f: text; c: char; i: integer; s: string[4]; a: packed array[1..4] of char; "
for op, body in (("eof", "if eof(f) then i := 1"), ("eoln", "if eoln(f) then i := 1"), ("read char", "read(f, c)"), ("read integer", "read(f, i)"), ("read string", "read(f, s)"), ("read array", "read(f, a)"), ("readln", "readln(f)"), ("get", "get(f)"),
                 ("write integer", "write(f, i)"), ("write char", "write(f, c)"), ("write string", "write(f, s)"), ("write array", "write(f, a)"), ("write real", "write(f, 1.5)"), ("write boolean", "write(f, true)"), ("writeln", "writeln(f)"), ("page", "page(f)"), ("close", "close(f)")):
    F = R if op.startswith("read") else M
    IN = 'in_textc("5\\n");' if op.startswith("read") else "in_i32();"
    F("closed text file: " + op, TD, "read(i); rewrite(f); close(f); s := ''; a := 'abcd'; c := 'x'; writeln('before'); %s; writeln('after')" % body, IN + "o_txt(\"before\\n\"); o_exit(1);", opts=[["-O1"]])
    F("text file in a record on the heap: " + op, TD + "type rf = record f: text; g: char end; prf = ^rf; var q: prf;", "read(i); new(q); s := ''; a := 'abcd'; c := 'x'; writeln('before'); with q^ do begin %s end; writeln('after')" % body, IN + "o_txt(\"before\\n\"); o_exit(1);", opts=[["-O1"]])
R("local files over and over", "var i: integer; procedure q(n: integer); var f: text; s: string; begin rewrite(f); writeln(f, n:1); reset(f); readln(f, s); writeln(s); if n mod 2 = 0 then close(f) end;", "read(i); for i := 1 to 8 do q(i)",
  "in_textc(\"5\\n\"); for (int i = 1; i < 9; i++) IL(i);")
R("heap files over and over", "type pt = ^text; var i: integer; f: pt; s: string;", "read(i); for i := 1 to 8 do begin new(f); rewrite(f^); writeln(f^, i:1); reset(f^); readln(f^, s); writeln(s); close(f^); dispose(f) end",
  "in_textc(\"5\\n\"); for (int i = 1; i < 9; i++) IL(i);")
M("recursion with files", "type ft = file of integer; procedure q(n, x: integer); var f: ft; begin rewrite(f); write(f, x + n); if n > 0 then q(n - 1, x); reset(f); writeln(f^) end; procedure w; var i: integer; begin read(i); q(5, i) end;", "w", "ml_exact = 0; i32 x = in_i32(); for (int i = 0; i < 6; i++) IL(wadd(x, i));")
M("more files than there are entries", "var f: array[1..1001] of text; i: integer;", "read(i); for i := 1 to 998 do assign(f[i], 'x'); writeln('full'); assign(f[5], 'y'); writeln('again'); assign(f[i + 1], 'x'); writeln('after')",
  "in_i32(); o_txt(\"full\\nagain\\n\"); o_exit(1);", opts=[["-O1"]], max_time=200, steps=60000000)

# ---- any bytes on the input, read as anything ----
N = 4 if THOROUGH else 3
RDV = "type r = record g: char; i: integer; h: char end; sr = record g: char; s: string[2]; h: char end; ar = record g: char; a: packed array[1..3] of char; h: char end; var v: r; l: longint; x: real; b: boolean; c: char; s: sr; a: ar; k: integer; "
ST = "v.g := 'G'; v.h := 'H'; s.g := 'G'; s.h := 'H'; a.g := 'G'; a.h := 'H'; "
for nm, body in (("integer", "read(v.i); read(v.i)"), ("longint", "read(l); read(l)"), ("real", "read(x)"), ("boolean", "read(b); read(b)"), ("char", "read(c); read(c); read(c); read(c); read(c); read(c)"), ("string", "read(s.s); read(s.s)"), ("char array", "read(a.a); read(a.a)"), ("readln", "readln; readln; readln"),
                 ("integers and lines", "readln(v.i); readln(s.s); read(a.a)"), ("mixture", "read(s.s, v.i, c, a.a, b, l)"), ("eof and eoln", "while not eof do if eoln then readln else read(c); read(c); readln"), ("get", "while not eof do get(input); get(input); get(input)"), ("buffer", "while not eof do begin c := input^; get(input) end")):
    R("any bytes: " + nm, RDV, ST + body + "; writeln(v.g, v.h, s.g, s.h, a.g, a.h); writeln('done')", "in_text(T, %d); o_txt(\"GHGHGH\\n\"); %s" % (N if nm not in ("real", "mixture") else N - 1, D), opts=[["-O1"]] if nm in ("real", "mixture") else None)
    for pre, tail in (("1234", ""), ("  \\n-", ""), ("tru", "e \\n12"), ("", "\\n")):
        R("any bytes after %r: %s" % (pre, nm), RDV, ST + body + "; writeln(v.g, v.h, s.g, s.h, a.g, a.h); writeln('done')", "in_textc(\"%s\"); in_text(T, %d); in_textc(\"%s\"); o_txt(\"GHGHGH\\n\"); %s" % (pre, 2, tail, D), opts=[["-O1"]])
for nm, ch in (("digits", "7"), ("letters", "t"), ("blanks", " "), ("minus", "-"), ("points", "."), ("lines", "\\n")):
    for rd, body in (("integer", "read(v.i)"), ("longint", "read(l)"), ("real", "read(x)"), ("boolean", "read(b)"), ("string", "read(s.s)"), ("char array", "read(a.a)"), ("readln", "readln")):
        R("long run of %s: %s" % (nm, rd), RDV, ST + body + "; writeln(v.g, v.h, s.g, s.h, a.g, a.h); writeln('done')", "for (int i = 0; i < 1030; i++) in_textc(\"%s\"); in_text(T, 1); o_txt(\"GHGHGH\\n\"); %s" % (ch, D), opts=[["-O1"]])
R("long numeral after the point", RDV, ST + "read(x); writeln(ord((x > 1.3) and (x < 1.4)):1)", "in_textc(\"1.\"); for (int i = 0; i < 900; i++) in_textc(\"3\"); in_text(T, 1); ASSUME(!dg(T[0])); ASSUME((T[0] != 'e') & (T[0] != 'E')); o_int(1,1); NL;", opts=[["-O1"]])
R("long exponent", RDV, ST + "read(x); writeln(ord(x = 0):1)", "in_textc(\"1e-\"); for (int i = 0; i < 300; i++) in_textc(\"9\"); in_text(T, 1); o_int(1,1); NL;", opts=[["-O1"]])
for n in (254, 255, 256, 300):
    R("a line of %d into strings" % n, "type ps = ^string; rec = record g: char; s: string; h: char end; var p: ps; q: string; r: rec; c: char;", "new(p); r.g := 'G'; r.h := 'H'; read(p^); read(q); readln; read(r.s); writeln(length(p^):1, length(q):3, length(r.s):4, r.g, r.h)",
      "for (int i = 0; i < %d; i++) in_textc(\"a\"); in_text(T, 1); ASSUME(T[0] != '\\n'); in_textc(\"\\n\"); for (int i = 0; i < 259; i++) in_textc(\"b\"); int n = %d; int p = n > 255 ? 255 : n; o_int(p,1); o_int(n - p,3); o_int(255,4); o_txt(\"GH\\n\");" % (n, n + 1), opts=[["-O1"]])

if __name__ == "__main__":
    run_tv("C22", progs, [["-O1"], ["-O0", "-m32"]] if not THOROUGH else [["-O0"], ["-O2"], ["-O1", "-m32"]], max_time=240,
           explanation="Programs compiled by the real compiler call every function of the runtime library with objects of exactly their type's size and symbolic contents and arguments. "
           "Every memory access of the program and the runtime is checked by the solver against the bounds and lifetime of the object it was made for, frees against allocations, and C library calls against "
           "their preconditions (open streams, terminated strings). Memory that has not been written holds an arbitrary value, so an uninitialised result disagrees with the oracle. Guards beside the objects are printed.",
           bounds={"symbolic string length": K, "concrete string length": "to 255 and over", "arbitrary input bytes": N, "run lengths": "1030 bytes of one kind and an arbitrary one", "file variables": "to 1001",
                   "program parameters": "none; paramstr of every integer"},
           assumptions=["the C library behaves as lib/minilibc.c models it; malloc does not fail; a file in a directory that does not exist cannot be opened",
                        "set elements and array indices are in range (C09 covers -Cr)", "the terminal (interactive input) is not covered"])
