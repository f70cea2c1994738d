"""C15: typed files.  Programs compiled by the real compiler, run with the real file routines on symbolic component
values and every sequence of operations up to the stated length; the oracle is an array of components with a position
and a mode.  The contents of named files are compared byte by byte at the end."""
from common import *
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


def M(name, decl, body, orc, **kw):
    P(name, "program p;\n%s\nbegin\n%s\nend." % (decl, body), "void oracle(void) {\n%s\n}" % orc, **kw)


# ---- every sequence of operations ----
MODEL = r"""
enum { NONE, GEN, INS, UPD, MAXC = 16 };
struct F { i32 v[MAXC]; int n, p, mode, made, put; };
static int op1(struct F* f, int op, int* seek)      /* can this be done now?  1: yes, 2: stops with the file error */
{
    int open = f->mode != NONE, rd = f->mode == INS || f->mode == UPD;
    switch (op) {
    case 1: return f->n < MAXC;                        /* rewrite */
    case 2: return f->made ? 1 : 2;                    /* reset */
    case 3: return !open ? 2 : f->mode == INS ? 2 : f->n < MAXC;       /* write */
    case 4: return !open ? 2 : rd && f->p < f->n;      /* read */
    case 5: case 6: case 7: return open ? 1 : 2;       /* seekread, seekwrite, seekupdate */
    case 8: return !open ? 0 : rd && f->p < f->n;      /* look at the buffer (no error report when closed) */
    case 9: return !open ? 2 : rd && f->p < f->n;      /* get */
    case 10: return 1;                                 /* append */
    case 11: return open ? 1 : 2;                      /* close */
    }
    return 0;
}
static void run(struct F* f, int op)
{
    int s = 0;
    int k = op1(f, op, &s);
    ASSUME(k != 0);
    if (op >= 5 && op <= 7 && k == 1) { s = in_pick(0, f->n); }
    else if (op >= 5 && op <= 7) in_pick(0, 0);
    i32 x = 0;
    if (op == 3) x = in_i32();
    if (k == 2) o_exit(1);
    switch (op) {
    case 1: f->n = f->p = 0; f->mode = GEN; f->made = 1; break;
    case 2: f->p = 0; f->mode = INS; break;
    case 3: f->v[f->p] = x; f->p++; if (f->p > f->n) f->n = f->p; break;
    case 4: IL(f->v[f->p]); f->p++; break;
    case 5: f->p = s; f->mode = INS; break;
    case 6: f->p = s; f->mode = GEN; break;
    case 7: f->p = s; f->mode = UPD; break;
    case 8: IL(f->v[f->p]); break;
    case 9: f->p++; break;
    case 10: f->p = f->n; f->mode = GEN; f->made = 1; break;
    case 11: f->mode = NONE; break;
    }
    if (f->mode == NONE) return;
    o_int(f->p, 0); SP; o_int(f->n - 1, 0); SP; o_int(f->n == 0, 1); SP;
    if (f->mode == GEN ? f->p == f->n : 1) o_int(f->p == f->n, 1); else o_chr('?');
    NL;
}
static void dump(struct F* f, const char* name)
{
    if (f->made) { for (int i = 0; i < f->n; i++) IL(f->v[i]); }
}
static void bytes(struct F* f, const char* name) { if (f->made) { o_file(name); o_mem(f->v, 4 * f->n); o_file(0); } }
"""
OPS = r"""
procedure state(var f: ft; m: integer);
begin
  write(position(f), ' ', lastposition(f), ' ', ord(empty(f)):1, ' ');
  if (m = 1) and (position(f) <= lastposition(f)) then writeln('?') else writeln(ord(eof(f)):1)
end;
procedure doit(var f: ft; var m: integer; op: integer);
var s: integer; x: integer;
begin
  case op of
    1: begin rewrite(f); m := 1 end;
    2: begin reset(f); m := 2 end;
    3: begin read(x); %(write)s end;
    4: begin %(read)s; writeln(x) end;
    5: begin read(s); seekread(f, s); m := 2 end;
    6: begin read(s); seekwrite(f, s); m := 1 end;
    7: begin read(s); seekupdate(f, s); m := 3 end;
    8: writeln(f^);
    9: get(f);
    10: begin append(f); m := 1 end;
    11: begin close(f); m := 0 end
  end;
  if m > 0 then state(f, m)
end;
procedure dump(var f: ft);
var x: integer;
begin
  reset(f);
  while not eof(f) do begin read(f, x); writeln(x) end;
  close(f)
end;
"""
WRITE = ("write(f, x)", "f^ := x; put(f)")
READ = ("read(f, x)", "x := f^; get(f)")
LEN = 4 if THOROUGH else 3



def seq(name, first, length, wr, rd, named, second=None, opts=None):
    """up to 3 components written first, then operation `first`, then length - 1 more, whatever they are."""
    pas = """program p;
type ft = file of integer;
var f: ft; m, n, i, op: integer;
%s
begin
  m := 0; %s
  read(n);
  if n >= 0 then begin rewrite(f); m := 1; for i := 1 to n do doit(f, m, 3) end;
  for i := 1 to %d do begin read(op); doit(f, m, op) end;
  if n >= 0 then dump(f)
end.""" % (OPS % dict(write=WRITE[wr], read=READ[rd]), "assign(f, 'c15.dat');" if named else "", length)
    orc = MODEL + """
void oracle(void) {
  static struct F f; int n = in_pick(-1, %d);
  if (n >= 0) { f.mode = GEN; f.made = 1; for (int i = 0; i < n; i++) run(&f, 3); }
  for (int i = 0; i < %d; i++) {
    int op = i == 0 ? in_pick(%d, %d) : %s in_pick(1, 11);
    run(&f, op);
  }
  if (n >= 0) dump(&f, 0);
  %s
}""" % (2 if length > 3 and not THOROUGH else 3, length, first, first, "i == 1 ? in_pick(%d, %d) :" % (second, second) if second else "", 'bytes(&f, "c15.dat");' if named else "")
    P(name, pas, orc, opts=opts)


for k in range(1, 12):
    if k in (2, 5, 7) or THOROUGH:
        for k2 in range(1, 12):
            seq("sequences from %d %d" % (k, k2), k, 4, k % 2, (k2 // 2) % 2, k2 % 3 != 0, k2, opts=None if THOROUGH else [["-O1"], ["-O0", "-m32"]][k2 % 2:k2 % 2 + 1])
    else:
        seq("sequences from %d" % k, k, 3, k % 2, (k // 2) % 2, k % 3 != 0)

# two and three files at once: each has its own position, buffer and contents
TWO = """program p;
type ft = file of integer;
     rt = record a, b: ft end;
var f: array[1..2] of ft; r: rt; m: array[1..2] of integer; i, k, op: integer;
%s
begin
  m[1] := 0; m[2] := 0; %s
  for i := 1 to 3 do begin read(k, op); doit(%s, m[k], op) end;
  for i := 1 to 3 do begin read(k, op); doit(%s, m[k], op) end;
  dump(f[1]); dump(f[2]);
end."""
for nm, decl in (("array of files", ""), ("named files", "assign(f[1], 'one.dat'); assign(f[2], 'two.dat');")):
    P("two files, " + nm, TWO.replace("; r: rt", "").replace("     rt = record a, b: ft end;\n", "") % (OPS % dict(write=WRITE[0], read=READ[0]), decl, "f[k]", "f[k]"), MODEL + """
void oracle(void) {
  static struct F f[2];
  for (int i = 0; i < 6; i++) {
    int k = in_pick(1, 2), op;
    if (i < 2) { k = i + 1 == k ? k : 0; ASSUME(k); op = in_pick(1, 1); }
    else if (i < 4) { ASSUME(k == (i == 2 ? 2 : 1)); op = in_pick(3, 3); }
    else op = in_pick(1, 11);
    ASSUME(op1(&f[k-1], op, 0) != 2);
    run(&f[k-1], op);
  }
  for (int k = 0; k < 2; k++) dump(&f[k], 0);
  %s
}""" % ('bytes(&f[0], "one.dat"); bytes(&f[1], "two.dat");' if decl else ""))


# ---- component types ----
# name: (declaration, read into v, print v, C: declaration of the components' fields, one component, its output)
TYPES = {
    "longint": ("t = longint", "read(v)", "writeln(v)", "i64 x", "in_i64()", "IL(v.x);"),
    "real": ("t = real", "read(v)", "writeln(v)", "double x", "in_f64()", "RL(v.x);"),
    "char": ("t = char", "read(v)", "writeln(v)", "u8 x", "in_chr()", "o_chr(v.x); NL;"),
    "boolean": ("t = boolean", "read(k); v := k > 4", "writeln(ord(v):1)", "int x", "in_range(0,9)", "o_int(v.x > 4,1); NL;"),
    "enumeration": ("t = (red, green, blue)", "read(k); v := red; while k > 0 do begin v := succ(v); k := k - 1 end", "writeln(ord(v):1)", "int x", "in_pick(0,2)", "o_int(v.x,1); NL;"),
    "subrange": ("t = 1..200", "read(v)", "writeln(v:1)", "int x", "in_range(1,200)", "o_int(v.x,1); NL;"),
    "character subrange": ("t = 'a'..'z'", "read(v)", "writeln(v)", "int x", "in_chr()", "ASSUME((v.x >= 'a') & (v.x <= 'z')); o_chr(v.x); NL;"),
    "set": ("t = set of 0..9", "read(k); v := [k, 3]", "for k := 0 to 9 do write(ord(k in v):1); writeln", "int x", "in_range(0,9)", "for (int k = 0; k < 10; k++) o_int((k == v.x) | (k == 3), 1); NL;"),
    "big set": ("t = set of 0..200", "read(k); v := [k..k + 2, 190]", "for k := 1 to 8 do write(ord(k in v):1); writeln(ord(190 in v):1, ord(189 in v):1)", "int x", "in_range(2,6)", "for (int k = 1; k < 9; k++) o_int((k >= v.x) & (k <= v.x + 2), 1); o_int(1,1); o_int(0,1); NL;"),
    "array": ("t = array[1..3] of integer", "for k := 1 to 3 do read(v[k])", "writeln(v[1]); writeln(v[2]); writeln(v[3])", "i32 x[3]", None, "IL(v.x[0]); IL(v.x[1]); IL(v.x[2]);"),
    "array of char": ("t = array[1..3] of char", "for k := 1 to 3 do read(v[k])", "writeln(v[1], v[2], v[3])", "u8 x[3]", None, "o_mem(v.x,3); NL;"),
    "record": ("t = record a: integer; c: char; r: real end", "read(v.a, v.c, v.r)", "writeln(v.a); writeln(v.c); writeln(v.r)", "i32 a; u8 c; double r", "R", "IL(v.a); o_chr(v.c); NL; RL(v.r);"),
    "nested record": ("q = record x, y: integer end; t = record p: q; a: array[0..1] of q; b: char end", "read(v.p.x, v.p.y, v.a[0].x, v.a[0].y, v.a[1].x, v.a[1].y, v.b)",
                      "writeln(v.p.x); writeln(v.p.y); writeln(v.a[0].x); writeln(v.a[0].y); writeln(v.a[1].x); writeln(v.a[1].y); writeln(v.b)", "i32 x[6]; u8 b", "N",
                      "for (int i = 0; i < 6; i++) IL(v.x[i]); o_chr(v.b); NL;"),
    "variant record": ("t = record case b: boolean of true: (i: longint); false: (c, d: char) end", "read(k); v.b := k = 1; if v.b then read(v.i) else read(v.c, v.d)",
                       "if v.b then writeln(v.i) else writeln(v.c, v.d)", "i64 i; int b; u8 c, d", "V", "if (v.b) IL(v.i); else { o_chr(v.c); o_chr(v.d); NL; }"),
    "string": ("t = string[5]", "read(v)", "writeln(v)", "u8 s[8]; int n", "S", "o_mem(v.s,v.n); NL;"),
}
GETC = {"R": "v->a = in_i32(); v->c = in_chr(); v->r = in_f64();", "N": "for (int i = 0; i < 6; i++) v->x[i] = in_i32(); v->b = in_chr();",
        "V": "v->b = in_pick(0,1); if (v->b) v->i = in_i64(); else { v->c = in_chr(); v->d = in_chr(); }", "S": "v->n = in_str(v->s,3);"}
HOW = {  # how the three components get into the file, and in what order they come out
    "write and read": ("rewrite(f); for i := 1 to 3 do begin getv; write(f, v) end; reset(f); while not eof(f) do begin read(f, v); putv end", (0, 1, 2)),
    "put and get": ("rewrite(f); for i := 1 to 3 do begin getv; f^ := v; put(f) end; reset(f); while not eof(f) do begin v := f^; get(f); putv end", (0, 1, 2)),
    "seek": ("rewrite(f); for i := 1 to 3 do begin getv; write(f, v) end; for i := 2 downto 0 do begin seekread(f, i); v := f^; putv; writeln(position(f), ' ', lastposition(f)) end", (2, 1, 0)),
    "exchange": ("rewrite(f); for i := 1 to 3 do begin getv; write(f, v) end; seekread(f, 0); read(f, w); seekupdate(f, 2); v := f^; f^ := w; put(f); seekwrite(f, 0); write(f, v); append(f); write(f, w); reset(f); while not eof(f) do begin read(f, v); putv end", (2, 1, 0, 0)),
    "copy": ("rewrite(f); for i := 1 to 3 do begin getv; write(f, v) end; rewrite(g); reset(f); while not eof(f) do begin g^ := f^; put(g); get(f) end; reset(g); while not eof(g) do begin read(g, v); putv end", (0, 1, 2)),
}
for ty, (decl, rd, pr, cdecl, get, out) in TYPES.items():
    for how, (body, order) in HOW.items():
        if get is None:
            g = "for (int i = 0; i < 3; i++) v->x[i] = %s;" % ("in_chr()" if "u8" in cdecl else "in_i32()")
        else:
            g = GETC.get(get) or "v->x = %s;" % get
        P("%s, %s" % (ty, how), "program p;\ntype %s; ft = file of t;\nvar f, g: ft; v, w: t; i, k: integer;\nprocedure getv; begin %s end;\nprocedure putv; begin %s end;\nbegin\n%s\nend." % (decl, rd, pr, body),
          "struct C { %s; };\nstatic void get(struct C* v) { %s }\nstatic void put(struct C v, int k) { %s %s }\nvoid oracle(void) { static struct C c[3]; for (int i = 0; i < 3; i++) get(&c[i]); static const int o[] = { %s }; for (unsigned i = 0; i < sizeof o / sizeof *o; i++) put(c[o[i]], o[i]); }"
          % (cdecl, g, out, "o_int(k,0); SP; o_int(2,0); NL;" if how == "seek" else "", ", ".join(map(str, order))))

# ---- the buffer variable ----
REC = "type r = record a: integer; b: array[1..3] of integer; c: char end; ft = file of r; var f: ft; i: integer;"
M("buffer components", REC, "rewrite(f); f^.a := 1; for i := 1 to 3 do read(f^.b[i]); read(f^.c); put(f); reset(f); writeln(f^.b[3]); writeln(f^.b[1]); writeln(f^.c); writeln(f^.a, ord(eof(f)):2); get(f); writeln(ord(eof(f)):1)",
  "i32 b[3]; for (int i = 0; i < 3; i++) b[i] = in_i32(); int c = in_chr(); IL(b[2]); IL(b[0]); o_chr(c); NL; I(1); o_int(0,2); NL; o_int(1,1); NL;")
M("buffer with with", REC, "rewrite(f); with f^ do begin read(a, c); b[2] := a; b[1] := 0; b[3] := 3 end; put(f); reset(f); with f^ do begin writeln(a); writeln(c); for i := 1 to 3 do writeln(b[i]) end",
  "i32 a = in_i32(); int c = in_chr(); IL(a); o_chr(c); NL; IL(0); IL(a); IL(3);")
M("buffer element with variable index", REC, "rewrite(f); f^.b[1] := 10; f^.b[2] := 20; f^.b[3] := 30; f^.c := 'x'; put(f); reset(f); read(i); writeln(f^.b[i]); seekupdate(f, 0); f^.b[i] := 7; put(f); reset(f); writeln(f^.b[1], ' ', f^.b[2], ' ', f^.b[3], f^.c)",
  "int i = in_pick(1,3); static int b[3] = { 10, 20, 30 }; IL(b[i-1]); b[i-1] = 7; o_int(b[0],0); SP; o_int(b[1],0); SP; o_int(b[2],0); o_chr('x'); NL;")
M("buffer as argument", "type ft = file of integer; var f: ft; procedure setit(var x: integer; v: integer); begin x := v end; function twice(x: integer): integer; begin twice := x + x end;",
  "var v: integer; begin read(v); rewrite(f); setit(f^, v); put(f); setit(f^, twice(f^ + 0)); reset(f); writeln(twice(f^)); setit(f^, 3); writeln(f^) end".replace("var v: integer; begin read(v);", "read(w);").replace(", v);", ", w);").replace(" setit(f^, twice(f^ + 0));", "").rsplit(" end", 1)[0],
  "i32 v = in_i32(); IL(wadd(v,v)); IL(3);")
progs[-1].pas = progs[-1].pas.replace("var f: ft;", "var f: ft; w: integer;")
M("two buffers in an expression", "type ft = file of integer; var f, g: ft; i, x: integer;",
  "rewrite(f); rewrite(g); for i := 1 to 2 do begin read(x); write(f, x) end; for i := 1 to 2 do begin read(x); write(g, x) end; reset(f); reset(g); writeln(f^ - g^); if f^ < g^ then writeln('less') else writeln('not less'); get(f); writeln(f^ - g^)",
  "i32 a = in_i32(), b = in_i32(), c = in_i32(), d = in_i32(); (void)d; IL(wsub(a,c)); if (a < c) o_txt(\"less\\n\"); else o_txt(\"not less\\n\"); IL(wsub(b,c));")
M("merge", "type ft = file of integer; var f, g, h: ft; i, x: integer;",
  """rewrite(f); rewrite(g); for i := 1 to 2 do begin read(x); write(f, x) end; for i := 1 to 2 do begin read(x); write(g, x) end;
reset(f); reset(g); rewrite(h);
while not eof(f) and not eof(g) do if f^ < g^ then begin h^ := f^; put(h); get(f) end else begin h^ := g^; put(h); get(g) end;
while not eof(f) do begin write(h, f^); get(f) end;
while not eof(g) do begin h^ := g^; put(h); get(g) end;
reset(h); while not eof(h) do begin writeln(h^); get(h) end""",
  "i32 a[2], b[2]; a[0] = in_i32(); a[1] = in_i32(); b[0] = in_i32(); b[1] = in_i32(); int i = 0, j = 0; while (i < 2 && j < 2) if (a[i] < b[j]) { IL(a[i]); i++; } else { IL(b[j]); j++; } while (i < 2) { IL(a[i]); i++; } while (j < 2) { IL(b[j]); j++; }")
M("expressions and constants written", "const k = 12; type ft = file of integer; rt = file of real; var f: ft; g: rt; x: integer; y: real; function h(x: integer): integer; begin h := x - 1 end;",
  "read(x, y); rewrite(f); write(f, x); write(f, x + 1); write(f, k); write(f, 5); write(f, h(x)); write(f, -x); rewrite(g); write(g, y); write(g, -y); write(g, 1.5); write(g, x); write(g, 3); reset(f); while not eof(f) do begin read(f, x); writeln(x) end; reset(g); while not eof(g) do begin read(g, y); writeln(y) end",
  "i32 x = in_i32(); double y = in_f64(); IL(x); IL(wadd(x,1)); IL(12); IL(5); IL(wsub(x,1)); IL(wneg(x)); RL(y); RL(-y); RL(1.5); RL((double)x); RL(3.0);")
M("components read into other types", "type ft = file of integer; ct = file of char; st = file of byte; byte = 0..255; var f: ft; c: ct; x: integer; l: longint; r: real; s: string; ch: char;".replace(" st = file of byte; byte = 0..255;", ""),
  "read(x); rewrite(f); write(f, x); write(f, x); write(f, x); reset(f); read(f, l); read(f, r); writeln(l); writeln(r); read(ch); rewrite(c); write(c, ch); write(c, 'z'); reset(c); read(c, ch); writeln(ch); read(c, s); writeln(length(s):1, s)",
  "i32 x = in_i32(); int c = in_chr(); IL((i64)x); RL((double)x); o_chr(c); NL; o_int(1,1); o_txt(\"z\\n\");")
progs[-1].pas = progs[-1].pas.replace("read(x); rewrite(f)", "read(x, ch); rewrite(f)").replace("read(ch); rewrite(c)", "rewrite(c)")
M("elements read and written", "type ft = file of integer; r = record a, b: integer end; var f: ft; a: array[1..3] of integer; q: r; i: integer;",
  "rewrite(f); for i := 1 to 3 do begin read(a[i]); write(f, a[i]) end; reset(f); for i := 3 downto 1 do read(f, a[i]); for i := 1 to 3 do writeln(a[i]); reset(f); read(f, q.b); read(f, q.a); writeln(q.a); writeln(q.b)",
  "i32 a[3]; for (int i = 0; i < 3; i++) a[i] = in_i32(); IL(a[2]); IL(a[1]); IL(a[0]); IL(a[1]); IL(a[0]);")

# ---- where files live ----
M("local files", "type ft = file of integer; procedure t(n, x: integer); var f: ft; y: integer; begin rewrite(f); write(f, x); if n > 0 then t(n - 1, x + 1); write(f, n); reset(f); while not eof(f) do begin read(f, y); writeln(y) end end; var x: integer;",
  "read(x); t(2, x); t(0, x)", "i32 x = in_i32(); for (int n = 0; n <= 2; n++) { IL(wadd(x, 2 - n)); IL(n); } IL(x); IL(0);")
M("files in records and on the heap", "type ft = file of integer; r = record n: integer; f, g: ft end; pr = ^r; var a: array[1..2] of r; p: pr; i, j, x: integer;",
  """new(p); read(x); for i := 1 to 2 do with a[i] do begin n := i; rewrite(f); rewrite(g); write(f, x + i); write(g, x - i) end; rewrite(p^.f); write(p^.f, x);
for i := 1 to 2 do begin reset(a[i].f); reset(a[i].g); writeln(a[i].n); writeln(a[i].f^); writeln(a[i].g^) end; reset(p^.f); read(p^.f, j); writeln(j); writeln(ord(eof(p^.f)):1)""",
  "i32 x = in_i32(); for (int i = 1; i < 3; i++) { IL(i); IL(wadd(x,i)); IL(wsub(x,i)); } IL(x); o_int(1,1); NL;")
M("file parameters", "type ft = file of integer; var f, g: ft; x: integer; procedure copy1(var a, b: ft; procedure each(x: integer)); var y: integer; procedure one; begin read(a, y); write(b, y); each(y) end; begin reset(a); rewrite(b); while not eof(a) do one end; procedure show(x: integer); begin writeln(x) end;",
  "rewrite(f); read(x); write(f, x); read(x); write(f, x); copy1(f, g, show); copy1(g, f, show)",
  "i32 x = in_i32(), y = in_i32(); IL(x); IL(y); IL(x); IL(y);")

# ---- names ----
M("contents of files", "type t = record i: integer; l: longint; c: char end; ft = file of t; ct = file of char; var f: ft; g: ct; v: t; s: string;",
  "s := 'some.dat'; assign(f, 'rec.dat'); assign(g, s); rewrite(f); rewrite(g); read(v.i, v.l, v.c); f^ := v; write(g, v.c); write(g, 'q'); close(g); append(g); write(g, v.c); reset(g); get(g); writeln(g^)",
  "in_i32(); in_i64(); int c = in_chr(); o_txt(\"q\\n\"); o_file(\"some.dat\"); o_chr(c); o_chr('q'); o_chr(c); o_file(\"rec.dat\"); o_file(0);")
M("the same file through two variables", "type ft = file of integer; lt = file of longint; var f, g: ft; l: lt; x: integer; y: longint;",
  "assign(f, 'same.dat'); assign(g, 'same.dat'); assign(l, 'same.dat'); rewrite(f); read(x); write(f, x); read(x); write(f, x); close(f); reset(g); writeln(g^); get(g); writeln(g^); close(g); reset(l); read(l, y); writeln(y); writeln(lastposition(l)); close(l); rewrite(g); close(g); reset(f); writeln(ord(eof(f)):1, ord(empty(f)):1, lastposition(f):3)",
  "i32 x = in_i32(), y = in_i32(); IL(x); IL(y); IL((i64)((u64)(u32)x | (u64)(u32)y << 32)); IL(0); o_int(1,1); o_int(1,1); o_int(-1,3); NL;")
M("other name for the variable", "type ft = file of integer; var f: ft; x: integer;",
  "assign(f, 'n1.dat'); rewrite(f); read(x); write(f, x); assign(f, 'n2.dat'); rewrite(f); write(f, x + 1); close(f); assign(f, 'n1.dat'); reset(f); writeln(f^)",
  "i32 x = in_i32(), y = wadd(x,1); IL(x); o_file(\"n1.dat\"); o_mem(&x,4); o_file(\"n2.dat\"); o_mem(&y,4); o_file(0);")
M("many files", "type ft = file of integer; var f: array[1..7] of ft; i, x: integer;",
  "read(x); for i := 1 to 7 do begin rewrite(f[i]); write(f[i], x + i) end; for i := 1 to 7 do begin reset(f[i]); writeln(f[i]^) end",
  "i32 x = in_i32(); for (int i = 1; i <= 7; i++) IL(wadd(x,i));")
M("far positions", "type ft = file of char; var f: ft; i: integer; n: longint; c: char;",
  "rewrite(f); for i := 0 to 99 do write(f, chr(i)); read(i); seekread(f, i); read(f, c); writeln(ord(c):1, position(f):4); read(n); seekupdate(f, n); f^ := 'x'; put(f); writeln(position(f):4); if not eof(f) then writeln(ord(f^):1); seekwrite(f, n - 1); write(f, 'y'); seekread(f, n - 1); read(f, c); write(c); read(f, c); writeln(c, lastposition(f):4)",
  "int i = in_pick(0,99); int n; o_int(i,1); o_int(i+1,4); NL; n = i % 2 ? 98 : 37; PICKL; o_int(n+1,4); NL; o_int(n+1,1); NL; o_txt(\"yx\"); o_int(99,4); NL;".replace("PICKL;", "").replace("n = i % 2 ? 98 : 37;", "i64 l = in_range64(1, 98); n = 1; while (n < 98 && l != n) n++;"))

# ---- errors ----
for nm, body in (("reset of a missing file", "reset(f)"), ("reset of a missing named file", "assign(f, 'no.dat'); reset(f)"), ("write before rewrite", "write(f, 1)"), ("read before reset", "read(f, x)"),
                 ("put before rewrite", "put(f)"), ("get before reset", "get(f)"), ("close of a file that is not open", "close(f)"), ("close twice", "rewrite(f); close(f); close(f)"),
                 ("seek before open", "seekread(f, 0)"), ("seek to update before open", "seekupdate(f, 0)"), ("seek to write before open", "seekwrite(f, 0)"), ("position before open", "writeln(position(f))"), ("lastposition before open", "writeln(lastposition(f))"),
                 ("empty before open", "writeln(empty(f))"), ("write to a file being read", "rewrite(f); write(f, 1); reset(f); write(f, 2)"), ("put into a file being read", "rewrite(f); write(f, 1); reset(f); put(f)"), ("assigned only", "assign(f, 'a.dat'); write(f, 1)")):
    M(nm, "type ft = file of integer; var f: ft; x: integer;", "writeln('before'); %s; writeln('after')" % body, "o_txt(\"before\\n\"); o_exit(1);")

if __name__ == "__main__":
    run_tv("C15", progs, [["-O1"], ["-O0", "-m32"]] if not THOROUGH else [["-O0"], ["-O2"], ["-O1", "-m32"]], max_time=300,
           explanation="Each program is compiled by the real compiler and executed symbolically together with the runtime's file code (assign, open, close, "
           "read, write, get, put, seek, position, eof). The operations of a sequence are chosen by solver forks and the component values are symbolic; the oracle is an "
           "array of components with a position and a mode. Everything printed, the exit status and, for named files, every byte of the file must agree.",
           bounds={"operations per sequence after the first writes": 4, "components written first": "0..2 (0..3 for sequences of 3), and a file that does not exist",
                   "files at once": 7, "components of a file in the far-position programs": 100, "component types": len(TYPES)},
           assumptions=["the C library's streams behave as lib/minilibc.c models them (in-memory files; no I/O errors after a successful open)",
                        "reading at the end of the file, in generation mode, and seeking past the end are not specified",
                        "eof in generation mode is specified at the end of the file only"])
