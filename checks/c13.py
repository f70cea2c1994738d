"""C13: formatted output.  write and writeln of every type, with widths and precisions that are constants, variables
and expressions, on the standard output, on files and through parameters."""
from common import *
progs = []


def P(name, decl, body, orc, **kw):
    progs.append(Prog(name, "program p;\n%s\nbegin\n%s\nend." % (decl, body), "void oracle(void) {\n%s\n}" % orc, **kw))


EX = "extern int ml_exact; ml_exact = 1; "
DIG = "static int pad_(int n) { while (n-- > 0) o_chr(' '); return 0; }\n"
W = 12 if THOROUGH else 7
# (type, declarations, read, oracle read, default print, width print)
NUM = [("integer", "i32 v = in_i32();", "o_int(v,%s);"), ("longint", "i64 v = in_i64();", "o_int(v,%s);")]
for ty, rd, pr in NUM:
    P("%s, constant widths" % ty, "var v: %s;" % ty, "read(v); writeln(v); writeln(v:1); writeln(v:8, v:20, v:0); write(v, ' ', v); writeln",
      rd + pr % 0 + "NL;" + pr % 1 + "NL;" + pr % 8 + pr % 20 + pr % 0 + "NL;" + pr % 0 + "SP;" + pr % 0 + "NL;")
    P("%s, computed width" % ty, "var v: %s; w: integer; const c = 3;" % ty if False else "const c = 3; var v: %s; w: integer;" % ty,
      "read(v, w); writeln(v:w); writeln(v:w+c, v:c*4, v:(w), v:w)",
      rd + "i32 w = in_range(0,1000);" + pr % "w" + "NL;" + pr % "w+3" + pr % "12" + pr % "w" + pr % "w" + "NL;")
    P("%s expressions" % ty, "type r = record a: %s; b: array[1..3] of %s end; var v, u: %s; x: r; i: integer; p: ^%s; function f(k: %s): %s; begin f := k + 1 end;" % ((ty,) * 6),
      "read(v, i); u := 3; x.a := v; x.b[1] := 1; x.b[2] := v; x.b[3] := 2; new(p); p^ := v; writeln(v + u:3, x.a:4, x.b[i]:5, p^:6, f(v):7, -v:8, f(u))".replace("p: ^%s;" % ty, ""),
      rd + "int i = in_range(1,3); i64 M = %s; i64 b = i == 2 ? v : i == 1 ? 1 : 2;" % "0" +
      ("o_int(wadd(v,3),3); o_int(v,4); o_int(b,5); o_int(v,6); o_int(wadd(v,1),7); o_int(wneg(v),8); o_int(4,0); NL;" if ty == "integer" else
       "o_int(wadd64(v,3),3); o_int(v,4); o_int(b,5); o_int(v,6); o_int(wadd64(v,1),7); o_int(wneg64(v),8); o_int(4,0); NL;"))
progs[2].pas = progs[2].pas.replace("p: ^integer;", "p: pi;").replace("type r", "type pi = ^integer; r")
progs[5].pas = progs[5].pas.replace("p: ^longint;", "p: pi;").replace("type r", "type pi = ^longint; r")
P("subranges and constants", "type s = 1..1000; t = -5..5; const k = 42; n = -7; var a: s; b: t;", "read(a, b); writeln(a:6, b:4, k:5, n:6, 12:4, -3:5, a, b, k); writeln(5 - 8:3, k div 4:3, n * 2)",
  "int a = in_range(1,1000), b = in_range(-5,5); o_int(a,6); o_int(b,4); o_int(42,5); o_int(-7,6); o_int(12,4); o_int(-3,5); o_int(a,0); o_int(b,0); o_int(42,0); NL; o_int(-3,3); o_int(10,3); o_int(-14,0); NL;")
P("digits of an integer", "var v, w: integer;", "read(v, w); writeln('<', v:w, '>'); writeln(v); writeln('[', v:1, ']')",
  EX + "int v = in_range(-120,1200), w = in_pick(0,8); o_chr('<'); o_int(v,w); o_txt(\">\\n\"); o_int(v,0); NL; o_chr('['); o_int(v,1); o_txt(\"]\\n\");", max_time=90)
SPECIAL = [-2**63, 2**63 - 1, 0, -1, 9, 10, -10, 4294967296, -2147483648, 999999999999]
P("digits of special integers", "var v: longint; i, m: integer;",
  "for i := 1 to %d do begin read(v); writeln(v:3, '|', v:21, '|', v) end; read(m); writeln(m:12, m)" % len(SPECIAL),
  EX + 'in_textc("%s\\n"); static const i64 a[] = { %s }; for (unsigned i = 0; i < sizeof a / sizeof *a; i++) { o_int(a[i],3); o_chr(\'|\'); o_int(a[i],21); o_chr(\'|\'); o_int(a[i],0); NL; } o_int(INT32_MIN,12); o_int(INT32_MIN,0); NL;'
  % (" ".join(map(str, SPECIAL + [-2**31])), ", ".join("INT64_MIN" if x == -2**63 else "%dll" % x for x in SPECIAL)), raw=True)
# reals
P("real, default and constant", "var v: real;", "read(v); writeln(v); writeln(v:10); writeln(v:20, v:8, v:3, v:14); writeln(v:8:2, v:0:3, v:12:0, v:1:1); write(v, v:9); writeln",
  "double v = in_f64(); RL(v); o_real(v,10,-1); NL; o_real(v,20,-1); o_real(v,8,-1); o_real(v,3,-1); o_real(v,14,-1); NL; o_real(v,8,2); o_real(v,0,3); o_real(v,12,0); o_real(v,1,1); NL; o_real(v,0,-1); o_real(v,9,-1); NL;")
P("real, computed", "var v: real; w, d: integer;", "read(v, w, d); writeln(v:w:d); writeln(v:w+1:d-1, v:d:w); writeln(v:w:2, v:9:d)",
  "double v = in_f64(); int w = in_range(0,300), d = in_range(1,200); o_real(v,w,d); NL; o_real(v,w+1,d-1); o_real(v,d,w); NL; o_real(v,w,2); o_real(v,9,d); NL;")
P("real, computed width only", "var v: real; w: integer;", "read(v, w); writeln(v:w); writeln('|', v:w+2)",
  "double v = in_f64(); int w = in_pick(1,20); o_real(v,w,-1); NL; o_chr('|'); o_real(v,w+2,-1); NL;")
P("real expressions", "const pi = 3.25; type r = record x: real; n: integer end; var v: real; a: array[1..2] of r; i: integer; function h(x: real): real; begin h := x / 2 end;",
  "read(v, i); a[1].x := v; a[2].n := i; writeln(-v:9:1, a[1].x:8:3, pi:6:2, h(1.5):5:2, 1.5:4:1); writeln(a[2].n * 1.0:9:2, i / 2, pi)",
  "double v = in_f64(); int i = in_i32(); o_real(-v,9,1); o_real(v,8,3); o_real(3.25,6,2); o_real(0.75,5,2); o_real(1.5,4,1); NL; o_real((double)i,9,2); o_real(i / 2.0,0,-1); o_real(3.25,0,-1); NL;")
# characters, booleans, enumerations
P("char", "type u = 'a'..'f'; var c: char; w: integer; k: u; a: array[1..2] of char;", "read(c, w, k); a[2] := c; writeln(c, c:1, c:3, 'x':4, 'y', a[2], a[2]:2); writeln('<', c:w, '>'); writeln(k:w + 1, k, chr(65):2, succ(k))",
  "int c = in_chr(), w = in_pick(0,%d), k = in_chr(); ASSUME((k >= 'a') & (k <= 'e')); o_chr(c); o_chr(c); o_chrw(c,3); o_chrw('x',4); o_chr('y'); o_chr(c); o_chrw(c,2); NL; o_chr('<'); o_chrw(c,w); o_txt(\">\\n\"); o_chrw(k,w+1); o_chr(k); o_chrw('A',2); o_chr(k+1); NL;" % W)
P("boolean", "var b: boolean; i, w: integer; r: record x, y: boolean end;", "read(i, w); b := i > 0; r.y := b; r.x := not b; writeln(b, ' ', b:1, ' ', b:4, b:5, b:7); writeln('<', b:w, '>', not b:w, r.y:6, r.x, i = 1:8, true:6, false)",
  "int i = in_pick(0,1), w = in_pick(0,%d); o_bool(i,0); SP; o_bool(i,1); SP; o_bool(i,4); o_bool(i,5); o_bool(i,7); NL; o_chr('<'); o_bool(i,w); o_chr('>'); o_bool(!i,w); o_bool(i,6); o_bool(!i,0); o_bool(i,8); o_bool(1,6); o_bool(0,0); NL;" % W)
P("enumeration", "type col = (red, green, blue, darkorange); sub = green..blue; var c: col; s: sub; i, w: integer; r: array[1..2] of col;",
  "read(i, w); c := red; while i > 0 do begin c := succ(c); i := i - 1 end; s := green; r[2] := c; writeln(c, ' ', c:3, c:12, '|', s, s:7, r[2]); writeln('<', c:w, '>', blue, darkorange:12)",
  """int i = in_pick(0,3), w = in_pick(0,%d); static const char* n[] = { "red", "green", "blue", "darkorange" }; const char* s = n[i]; int k = strlen(s);
  o_txt(s); SP; o_strw(s,k,3); o_strw(s,k,12); o_chr('|'); o_txt("green"); o_strw("green",5,7); o_txt(s); NL; o_chr('<'); o_strw(s,k,w); o_chr('>'); o_txt("blue"); o_strw("darkorange",10,12); NL;""" % W)
# strings
P("string constants", "const k = 'hello'; e = 'x'; var w: integer;", "read(w); writeln('abc', 'abc':2, 'abc':6, k, k:3, k:8, e:3, 'it''s'); writeln('<', 'abcdef':w, '>', k:w, '>', 'q':w, '>', '')",
  """int w = in_pick(1,%d); o_txt("abc"); o_txt("ab"); o_txt("   abc"); o_txt("hello"); o_txt("hel"); o_txt("   hello"); o_txt("  x"); o_txt("it's"); NL;
  o_chr('<'); o_strw("abcdef",6,w); o_chr('>'); o_strw("hello",5,w); o_chr('>'); o_chrw('q',w); o_txt(">\\n");""" % (W + 1))
P("array of char", "type t = array[1..5] of char; var a: t; i, w: integer; r: record x: t; y: integer end;",
  "for i := 1 to 5 do read(a[i]); read(w); r.x := a; writeln(a, a:5, a:3, a:8); writeln('<', a:w, '>', r.x, r.x:w)",
  "u8 a[5]; for (int i = 0; i < 5; i++) { a[i] = in_chr(); ASSUME(a[i] != 0); } int w = in_pick(1,%d); o_mem(a,5); o_mem(a,5); o_mem(a,3); o_txt(\"   \"); o_mem(a,5); NL; o_chr('<'); o_strw(a,5,w); o_chr('>'); o_mem(a,5); o_strw(a,5,w); NL;" % W)
P("string variables", "var s: string; t: string[4]; r: record a: string[3]; b: string[6] end; p: array[1..2] of string[5];",
  "read(s); t := s; r.a := 'pq'; r.b := s; p[1] := ''; p[2] := t; writeln(s); writeln(t, '|', r.a, '|', r.b, '|', p[1], '|', p[2], s + t, copy(s, 2, 2))",
  """u8 b[8]; int n = in_str(b,6); int t = n < 4 ? n : 4; o_mem(b,n); NL; o_mem(b,t); o_txt("|pq|"); o_mem(b,n); o_txt("||"); o_mem(b,t); o_mem(b,n); o_mem(b,t);
  int c = n < 2 ? 0 : n - 1 < 2 ? n - 1 : 2; o_mem(b+1,c); NL;""")
P("string with every byte", "var s: string; c: char; i: integer;", "read(c, s); write(s, c); writeln(s, s)", "int c = in_chr(); u8 b[4]; int n = in_str(b,3); o_mem(b,n); o_chr(c); o_mem(b,n); o_mem(b,n); NL;")
# several arguments, their order, side effects
P("order of the arguments", "var n: integer; function f(k: integer): integer; begin n := n * 3 + k; f := n end;", "read(n); writeln(f(1):f(2) - n + 4, ' ', f(3):1, n:2, f(4))" if False else "read(n); writeln(f(1), ' ', f(3):1, ' ', n:2, ' ', f(4))",
  "int n = in_range(-100,100); n = n * 3 + 1; o_int(n,0); SP; n = n * 3 + 3; o_int(n,1); SP; o_int(n,2); SP; n = n * 3 + 4; o_int(n,0); NL;")
P("many arguments", "var i: integer; c: char; r: real; b: boolean; s: string;", "read(i, c, r, s); b := i > 5; write(i:3, c:2, r:7:2, b:6, s, 'end':4); writeln; writeln; writeln(s, b, r, c, i); write(i); write(c); writeln",
  "int i = in_pick(4,7), c = in_chr(); double r = in_f64(); u8 s[4]; int n = in_str(s,2); o_int(i,3); o_chrw(c,2); o_real(r,7,2); o_bool(i>5,6); o_mem(s,n); o_txt(\" end\"); NL; NL; o_mem(s,n); o_bool(i>5,0); o_real(r,0,-1); o_chr(c); o_int(i,0); NL; o_int(i,0); o_chr(c); NL;")
# destinations
FDECL = "var f, g: text; i, w: integer; c: char; r: real; s: string; "
P("file", FDECL, "read(i, c, r, s); assign(f, 'o.txt'); rewrite(f); write(f, i:5, c, r:8:3); writeln(f, s, i > 2, 'q':3); writeln(f); page(f); close(f); writeln(i)",
  "int i = in_pick(2,3), c = in_chr(); double r = in_f64(); u8 s[4]; int n = in_str(s,2); o_file(\"o.txt\"); o_int(i,5); o_chr(c); o_real(r,8,3); o_mem(s,n); o_bool(i>2,0); o_txt(\"  q\"); NL; NL; o_chr(12); o_file(0); o_int(i,0); NL;")
P("two files and the output", FDECL, "read(i, c); assign(f, 'a.txt'); assign(g, 'b.txt'); rewrite(f); rewrite(g); write(f, i); write(g, c); write(i:2); writeln(f, c, c); writeln(g, i:3); writeln(output, c); write(f, 'f'); write(g, 'g'); close(g); writeln(f); close(f); append(g); write(g, c:3); close(g)",
  "int i = in_i32(), c = in_chr(); o_file(\"a.txt\"); o_int(i,0); o_chr(c); o_chr(c); NL; o_txt(\"f\\n\"); o_file(\"b.txt\"); o_chr(c); o_int(i,3); NL; o_chr('g'); o_chrw(c,3); o_file(0); o_int(i,2); o_chr(c); NL;")
P("file parameters", "type rec = record t: text; n: integer end; var f: text; x: rec; a: array[1..2] of text; i: integer; procedure put(var o: text; v: integer); begin write(o, v:4, '.'); writeln(o, v) end;" .replace("procedure put", "procedure out1").replace("var f", "var f"),
  "read(i); assign(f, 'a.txt'); rewrite(f); assign(x.t, 'b.txt'); rewrite(x.t); assign(a[2], 'c.txt'); rewrite(a[2]); out1(f, i); out1(output, i); out1(x.t, 7); out1(a[2], i); out1(f, 8); close(f); close(x.t); close(a[2])",
  "int i = in_i32(); o_file(\"a.txt\"); o_int(i,4); o_chr('.'); o_int(i,0); NL; o_int(8,4); o_chr('.'); o_int(8,0); NL; o_file(\"b.txt\"); o_int(7,4); o_chr('.'); o_int(7,0); NL; o_file(\"c.txt\"); o_int(i,4); o_chr('.'); o_int(i,0); NL; o_file(0); o_int(i,4); o_chr('.'); o_int(i,0); NL;")
P("rewrite empties a file", FDECL, "read(i); assign(f, 'a.txt'); rewrite(f); writeln(f, 'abcdefgh', i); close(f); rewrite(f); write(f, i:2); close(f); append(f); writeln(f, i); rewrite(f); write(f, 'z')",
  "in_i32(); o_file(\"a.txt\"); o_chr('z');")
P("several hundred lines", "var i, k: integer; s: string;", "read(k); for i := 1 to 60 do begin write(i:3, ' '); if i mod 10 = 0 then writeln(k) end; s := ''; for i := 1 to 255 do s := s + 'x'; writeln(s); writeln(s, k)",
  "int k = in_i32(); for (int i = 1; i <= 60; i++) { o_int(i,3); SP; if (i % 10 == 0) { o_int(k,0); NL; } } for (int j = 0; j < 2; j++) { for (int i = 0; i < 255; i++) o_chr('x'); if (j) o_int(k,0); NL; }")
P("in procedures and loops", """type t = array[1..3] of integer; var a: t; i, w: integer;
procedure line(var x: t; w: integer); var k: integer; begin for k := 1 to 3 do begin write(x[k]:w); if k < 3 then write(',') else writeln(';') end end;
procedure rec(n: integer); begin if n > 0 then begin rec(n - 1); write(n:n + w, ' ') end else writeln('start') end;""",
  "for i := 1 to 3 do read(a[i]); read(w); line(a, w); rec(3); writeln; with a_do do" if False else "for i := 1 to 3 do read(a[i]); read(w); line(a, w); rec(3); writeln",
  "int a[3]; for (int i = 0; i < 3; i++) a[i] = in_i32(); int w = in_range(0,50); for (int i = 0; i < 3; i++) { o_int(a[i],w); o_txt(i < 2 ? \",\" : \";\\n\"); } o_txt(\"start\\n\"); for (int n = 1; n <= 3; n++) { o_int(n, n + w); SP; } NL;")
P("conformant array of char", "var a: array[1..4] of char; i: integer; procedure show(x: array[l..h: integer] of char; w: integer); begin writeln(x); writeln('<', x:w, '>') end;",
  "for i := 1 to 4 do read(a[i]); show(a, 6); show('ab', 3); show(a, 2)",
  "u8 a[4]; for (int i = 0; i < 4; i++) { a[i] = in_chr(); ASSUME(a[i] != 0); } o_mem(a,4); NL; o_txt(\"<  \"); o_mem(a,4); o_txt(\">\\n\"); o_txt(\"ab\\n< ab>\\n\"); o_mem(a,4); NL; o_chr('<'); o_mem(a,2); o_txt(\">\\n\");")
P("output ended by halt", "var i: integer;", "read(i); write(i:4, 'x'); if i > 3 then halt; writeln(i)", "int i = in_range(0,9); o_int(i,4); o_chr('x'); if (i > 3) o_exit(0); o_int(i,0); NL;")

if __name__ == "__main__":
    run_tv("C13", progs, [["-O0"], ["-O2"], ["-O1", "-m32"]] if not THOROUGH else ALL_OPTS, max_time=90,
           explanation="Each program is compiled by the real compiler and executed symbolically with the runtime's real write routines; the oracle states "
           "the fields that must be written, one by one, for standard output and for each file.  Numbers are compared as (value, width, precision) handed "
           "to printf, and additionally digit by digit for small symbolic and selected extreme integers.",
           bounds={"field widths of symbolic size": "0..1000 for numbers, 0..%d for text" % W, "string lengths": "0..6 symbolic, 255 concrete", "files": 3},
           assumptions=["printf of the C library is correct for %d, %E and %f (numbers are compared as its arguments)", "negative field widths are not checked"])
