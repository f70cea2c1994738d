"""C05: arrays, records, variants and pointers denote the right storage."""
from common import *

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


# index types: (name, declaration, low, high, conversion of integer expression to index, index to integer)
IDX = [("small", "1..6", 1, 6, "%s", "%s"), ("neg", "-5..2", -5, 2, "%s", "%s"), ("far", "1000..1006", 1000, 1006, "%s", "%s"),
       ("negfar", "-70000..-69994", -70000, -69994, "%s", "%s"),
       ("char", "'c'..'i'", 99, 105, "chr(%s)", "ord(%s)"), ("enum", "col", 0, 4, "ec[%s]", "ord(%s)"), ("esub", "green..cyan", 1, 3, "ec[%s]", "ord(%s)"),
       ("bool", "boolean", 0, 1, "ec[%s] = green", "ord(%s)"), ("hic", "chr(250)..chr(255)", 250, 255, "chr(%s)", "ord(%s)")]
# element types: (name, declaration, make from integer expression (Pascal), observe (Pascal), C make, C observe)
ELT = [("int", "integer", "%s", "writeln(%s)", "IL(%s)"), ("long", "longint", "%s", "writeln(%s)", "IL(%s)"),
       ("char", "char", "chr(%s + 120)", "writeln(ord(%s))", "IL(%s + 120)"), ("sub", "-100..100", "%s", "writeln(%s)", "IL(%s)"),
       ("bool", "boolean", "odd(%s)", "writeln(ord(%s):1)", "o_int((%s) & 1, 1); NL"), ("real", "real", "0.5 * (%s)", "writeln(%s:9:2)", "o_real(0.5 * (%s), 9, 2); NL"),
       ("rec", "rc", "mk(%s)", "show(%s)", "I(%s); SP; IL(3)"), ("set", "set of 0..40", "mks(%s)", "shows(%s)", "o_int(%s, 1); NL"),
       ("str", "string[7]", "mkstr(%s)", "writeln(%s)", "o_chr('<'); o_chr('a' + ((%s) & 15)); o_txt(\"bc\"); NL"),
       ("arr", "ar3", "mka(%s)", "showa(%s)", "I(%s); SP; I(%s); SP; IL(7)")]
HEAD = """program p;
type col = (red, green, blue, cyan, pink); rc = record c : char; v : integer; b : boolean; k : longint end; ar3 = array [-1..1] of integer; s40 = set of 0..40; st = string[7];
 ix = %(idx)s; el = %(elt)s; arr = array [ix] of el; gr = record g1 : integer; a : arr; g2 : integer end;
var ec : array [0..4] of col; r, q : gr; i, j : ix; x, y, n, u, w : integer; g3 : integer;
function mk(n : integer) : rc; var t : rc; begin t.c := 'x'; t.v := n; t.b := true; t.k := 3; mk := t end;
procedure show(t : rc); begin writeln(t.v, ' ', t.k) end;
function mks(n : integer) : s40; begin mks := [n, 40] - [-1 + 1] end;
procedure shows(s : s40); var i, t : integer; begin t := 0; for i := 1 to 39 do t := t + i * ord(i in s); writeln(t:1) end;
function mkstr(n : integer) : st; begin mkstr := '<' + chr(97 + (n and 15)) + 'bc' end;
function mka(n : integer) : ar3; var t : ar3; begin t[-1] := n; t[0] := n + 0; t[1] := 7; mka := t end;
procedure showa(t : ar3); begin writeln(t[-1], ' ', t[0], ' ', t[1]) end;
begin ec[0] := red; ec[1] := green; ec[2] := blue; ec[3] := cyan; ec[4] := pink;
"""
for (ni, di, lo, hi, cv, oi) in IDX:
    for (ne, de, mk, sh_, csh) in ELT:
        full = ni in ("small", "neg", "char")
        if not THOROUGH and not full and (hash_(ni + ne) % 3 and not (ni == "bool" and ne == "int")):
            continue
        n = hi - lo + 1
        pas = HEAD % dict(idx=di, elt=de) + """ read(x); read(y); read(u); i := %s; j := %s;
 r.g1 := 11; r.g2 := 22; g3 := 33; q.g1 := 44; q.g2 := 55;
 for n := %d to %d do r.a[%s] := %s;
 r.a[i] := %s; %s; %s; q.a := r.a; q.a[j] := %s; %s; %s; %s; r := q; q.a[i] := %s; %s; %s;
 for n := %d to %d do %s;
 writeln(r.g1, ' ', r.g2, ' ', g3, ' ', q.g1, ' ', q.g2)
end.
""" % (cv % "x", cv % "y", lo, hi, cv % "n", mk % ("n - (%d)" % (lo - 1)), mk % "u", sh_ % "r.a[j]", sh_ % "r.a[i]", mk % "9", sh_ % "r.a[j]", sh_ % "q.a[i]", sh_ % "q.a[j]",
       mk % "10", sh_ % "r.a[j]", sh_ % "q.a[j]", lo, hi, sh_ % ("r.a[%s]" % (cv % "n")))
        if ne == "bool":
            pass
        obs = lambda e: csh.replace("%s", e) + ";"
        orc = "void oracle(void){ i32 x = in_range(%d,%d), y = in_range(%d,%d), u = in_range(1,30); i32 r[%d], q[%d]; " % (lo, hi, lo, hi, n, n)
        orc += "for (int i = 0; i < %d; i++) r[i] = i + 1; x -= (%d); y -= (%d); r[x] = u; %s %s" % (n, lo, lo, obs("r[y]"), obs("r[x]"))
        orc += "for (int i = 0; i < %d; i++) q[i] = r[i]; q[y] = 9; %s %s %s for (int i = 0; i < %d; i++) r[i] = q[i]; q[x] = 10; %s %s" % (n, obs("r[y]"), obs("q[x]"), obs("q[y]"), n, obs("r[y]"), obs("q[y]"))
        orc += "for (int i = 0; i < %d; i++) { %s } I(44); SP; I(55); SP; I(33); SP; I(44); SP; IL(55); }" % (n, obs("r[i]"))
        P("arr_%s_%s" % (ni, ne), pas, orc, max_time=40)
# ---- several dimensions ------------------------------------------------------------------------------------------------
# a multidimensional array is indexed with all its indices at once in this dialect; an array of arrays row by row or at once
P("dim3", """program p; type t3 = array [-1..1, 'a'..'c', boolean] of integer; nest = array [-1..1] of array ['a'..'c'] of array [boolean] of integer;
var a, b : t3; e : nest; i, n, u, x : integer; c, d : char; q : boolean;
begin for i := -1 to 1 do for c := 'a' to 'c' do for q := false to true do begin a[i, c, q] := (i + 2) * 100 + ord(c) * 2 + ord(q); e[i][c][q] := -a[i, c, q] end;
 read(i); read(c); read(x); q := odd(x); read(n); read(d); read(u);
 a[i, c, q] := u; writeln(a[n, d, q]); writeln(a[n, d, not q]); b := a; b[n, d, q] := a[i, c, q] + 1; writeln(b[n, d, q]); writeln(a[n, d, q]); writeln(b[i, c, q]);
 e[n, d, q] := u * 2; writeln(e[i, c, q]); writeln(e[i][c][not q]); e[i] := e[n]; writeln(e[i, d, q]); writeln(e[i, c][q]); e[i, c] := e[n][d]; writeln(e[i, c, q]); writeln(a[i, c, q]);
 read(i); read(c); read(x); q := odd(x); writeln(a[i, c, q]); writeln(e[i, c, q])
end.
""", """void oracle(void){ i32 a[3][3][2], e[3][3][2], b[3][3][2]; for (int i = 0; i < 3; i++) for (int c = 0; c < 3; c++) for (int q = 0; q < 2; q++) e[i][c][q] = -(a[i][c][q] = (i + 1) * 100 + (c + 97) * 2 + q);
 i32 i = in_range(-1, 1) + 1, c = in_chr(); ASSUME((c >= 'a') & (c <= 'c')); c -= 'a'; i32 q = in_i32() & 1, n = in_range(-1, 1) + 1, d = in_chr(); ASSUME((d >= 'a') & (d <= 'c')); d -= 'a'; i32 u = in_range(-100, 100);
 a[i][c][q] = u; IL(a[n][d][q]); IL(a[n][d][!q]); memcpy(b, a, sizeof a); b[n][d][q] = a[i][c][q] + 1; IL(b[n][d][q]); IL(a[n][d][q]); IL(b[i][c][q]); e[n][d][q] = u * 2; IL(e[i][c][q]); IL(e[i][c][!q]);
 { i32 t[3][2]; memcpy(t, e[n], 24); memcpy(e[i], t, 24); } IL(e[i][d][q]); IL(e[i][c][q]); { i32 t[2]; memcpy(t, e[n][d], 8); memcpy(e[i][c], t, 8); } IL(e[i][c][q]); IL(a[i][c][q]);
 i = in_range(-1, 1) + 1; c = in_chr(); ASSUME(c >= 'a' && c <= 'c'); c -= 97; q = in_range(0, 1); IL(a[i][c][q]); IL(e[i][c][q]); }""", max_time=60)
P("dim2", """program p; var m : array [0..3, 10..12] of longint; k : array [1..3] of array [-1..1] of char; i, j, x, y : integer; l : longint;
begin for i := 0 to 3 do for j := 10 to 12 do m[i, j] := i * 1000 + j; for i := 1 to 3 do for j := -1 to 1 do k[i, j] := chr(65 + i * 3 + j);
 read(i); read(j); read(l); read(x); read(y); m[i, j] := l; writeln(m[x, y]); m[x, y] := m[i, j] + 1; writeln(m[i, j]); writeln(m[i, y]); writeln(m[x, j]); x := 0; for i := 0 to 3 do for j := 10 to 12 do x := x + ord(m[i, j] = i * 1000 + j); writeln(x);
 j := 12; k[y - 9, j - 12] := '*'; k[1] := k[y - 9]; for i := 1 to 3 do begin for j := -1 to 1 do write(k[i][j]); writeln end
end.
""", """void oracle(void){ i64 m[4][3]; u8 k[3][3]; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) m[i][j] = i * 1000 + j + 10; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k[i][j] = 65 + (i + 1) * 3 + j - 1;
 i32 i = in_range(0, 3), j = in_range(10, 12) - 10; i64 l = in_i64(); i32 x = in_range(0, 3), y = in_range(10, 12) - 10; m[i][j] = l; IL(m[x][y]); m[x][y] = wadd64(m[i][j], 1); IL(m[i][j]); IL(m[i][y]); IL(m[x][j]);
 x = 0; for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) x += m[i][j] == i * 1000 + j + 10; IL(x);
 k[y][1] = '*'; memcpy(k[0], k[y], 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) o_chr(k[i][j]); NL; } }""", max_time=60)
# ---- records -------------------------------------------------------------------------------------------------------------
P("rec", """program p; type col = (red, green, blue); inner = record c : char; l : longint; e : col end; outer = record b : boolean; i1, i2 : inner; a : array [1..3] of inner; s : string[5]; r : real; n : integer; t : set of col; z : -10..10 end;
var x, y : outer; v : array [0..2] of outer; i, j, k : integer; l : longint; c : char; q : outer;
procedure dump(var o : outer); var i : integer; begin writeln(ord(o.b):1); with o.i1 do writeln(c, l, ord(e):3); with o, i2 do writeln(c, l, ord(e):3); for i := 1 to 3 do with o do begin write(a[i].c); write(a[i].l); writeln(ord(a[i].e):3) end; writeln(o.s, o.n, o.z:4, card(o.t):2) end;
procedure fill(var o : outer; b : integer); var i : integer; begin with o do begin b := odd(b); n := b end end;
begin end.
""".replace("procedure fill(var o : outer; b : integer); var i : integer; begin with o do begin b := odd(b); n := b end end;\nbegin end.\n", """procedure fill(var o : outer; k : integer); var i : integer; begin with o do begin b := odd(k); i1.c := 'p'; i1.l := k; i1.e := green; with i2 do begin c := 'q'; l := k + 1; e := blue end; for i := 1 to 3 do with a[i] do begin c := chr(97 + i); l := k * i; e := red end; s := 'abcde'; r := 1.5; n := k - 1; t := [red, blue]; z := -3 end end;
begin read(k); read(l); read(c); fill(x, k); fill(y, 77); y.i2.l := l; y.a[2].c := c; y.z := 10; dump(x); dump(y); read(i); read(j); v[i] := x; v[j] := y; dump(v[i]); v[j].a[3] := x.i1; v[i].i1.c := 'Z'; dump(v[j]); x := v[j]; x.n := 5; v[j].s := 'xy'; dump(x); dump(v[i]);
 q := x; q.i1 := q.i2; q.a[1] := q.a[2]; q.b := not q.b; dump(q); dump(x)
end.
"""), """typedef struct { i32 c; i64 l; i32 e; } in_t; typedef struct { i32 b; in_t i1, i2, a[3]; const char* s; i32 n, z, t; } out_t;
static void one(in_t* p) { o_chr(p->c); I(p->l); o_int(p->e, 3); NL; }
static void dump(out_t* o) { o_int(o->b, 1); NL; one(&o->i1); one(&o->i2); for (int i = 0; i < 3; i++) one(&o->a[i]); o_txt(o->s); I(o->n); o_int(o->z, 4); o_int(2, 2); NL; }
static void fill(out_t* o, i32 k) { o->b = k & 1; o->i1.c = 'p'; o->i1.l = k; o->i1.e = 1; o->i2.c = 'q'; o->i2.l = wadd(k, 1); o->i2.e = 2; for (int i = 1; i <= 3; i++) { o->a[i-1].c = 97 + i; o->a[i-1].l = wmul(k, i); o->a[i-1].e = 0; } o->s = "abcde"; o->n = wsub(k, 1); o->z = -3; }
void oracle(void){ i32 k = in_i32(); i64 l = in_i64(); i32 c = in_chr(); out_t x, y, v[3], q; fill(&x, k); fill(&y, 77); y.i2.l = l; y.a[1].c = c; y.z = 10; dump(&x); dump(&y); i32 i = in_pick(0, 2), j = in_pick(0, 2); v[i] = x; v[j] = y; dump(&v[i]); v[j].a[2] = x.i1; v[i].i1.c = 'Z'; dump(&v[j]);
 x = v[j]; x.n = 5; v[j].s = "xy"; dump(&x); dump(&v[i]); q = x; q.i1 = q.i2; q.a[0] = q.a[1]; q.b = !q.b; dump(&q); dump(&x); }""", max_time=60)
P("variant", """program p; type kind = (ka, kb, kc, kd); inner = record case boolean of true : (p1 : integer; p2 : char); false : (q1, q2 : char; q3 : boolean; q4 : longint) end;
 v = record a : integer; l : longint; case k : kind of ka : (i1, i2 : integer; c1 : char); kb : (r : real; b : boolean); kc : (s : string[9]; z : -5..5); kd : (n : inner; m : array [1..3] of longint) end;
var x, y : v; arr : array [1..3] of v; i, u, w : integer; l : longint; c : char; g1, g2 : integer; pv : ^v;
begin read(u); read(l); read(c); g1 := 7; g2 := 8; x.a := 5; x.l := l; x.k := kc; x.s := '123456789'; x.z := -5; writeln(x.s, x.z, x.a, x.l);
 x.k := ka; x.i1 := u; x.i2 := u + 1; x.c1 := c; writeln(x.i1, ' ', x.i2, ' ', x.c1, x.a, x.l, ord(x.k):2); y := x; y.i1 := 3; x.i2 := 4; writeln(x.i1, ' ', y.i2, ' ', y.c1, y.i1, x.i2);
 with y do begin k := kd; for i := 1 to 3 do m[i] := l - i; n.q1 := 'a'; n.q2 := c; n.q3 := true; n.q4 := l * 2; writeln(n.q1, n.q2, ord(n.q3):1, n.q4, m[1], m[3], a, l) end;
 with y, n do begin p1 := u; p2 := c; m[2] := 9; writeln(p1, p2, m[1], m[2], m[3], a) end;
 x.k := kb; x.r := 2.5; x.b := odd(u); writeln(x.r:4:1, ord(x.b):1, x.l, x.a); read(i); arr[1] := x; arr[2] := y; arr[3].k := ka; arr[3].i1 := u; arr[3].a := 31; arr[i].a := 99; for w := 1 to 3 do writeln(arr[w].a, ord(arr[w].k):2);
 new(pv); pv^ := arr[2]; arr[2].m[3] := 0; pv^.m[1] := 1; writeln(pv^.m[1], pv^.m[3], arr[2].m[1], arr[2].m[3]); writeln(g1, g2)
end.
""", """void oracle(void){ i32 u = in_i32(); i64 l = in_i64(); i32 c = in_chr(); o_txt("123456789"); I(-5); I(5); IL(l); I(u); SP; I(wadd(u,1)); SP; o_chr(c); I(5); I(l); o_int(0,2); NL; I(u); SP; I(wadd(u,1)); SP; o_chr(c); I(3); IL(4);
 o_chr('a'); o_chr(c); o_int(1,1); I(wmul64(l,2)); I(wsub64(l,1)); I(wsub64(l,3)); I(5); IL(l); I(u); o_chr(c); I(wsub64(l,1)); I(9); I(wsub64(l,3)); IL(5);
 o_real(2.5,4,1); o_int(u & 1,1); I(l); IL(5); i32 i = in_pick(1, 3); I(i == 1 ? 99 : 5); o_int(1,2); NL; I(i == 2 ? 99 : 5); o_int(3,2); NL; I(i == 3 ? 99 : 31); o_int(0,2); NL;
 I(1); I(wsub64(l,3)); I(wsub64(l,1)); IL(0); I(7); IL(8); }""", max_time=60)
P("with", """program p; type pt = record x, y : integer end; bx = record lo, hi : pt; n : integer end; pb = ^bx; var a : array [1..4] of bx; i, j, k, x : integer; q, q2 : pb; b : bx; pp : array [0..1] of pb; lst : array [1..3] of record v : integer; nx : integer end;
begin for i := 1 to 4 do with a[i] do begin lo.x := i; lo.y := i * 10; hi.x := -i; hi.y := i + 100; n := 0 end; read(i); read(j); read(k); x := 1;
 with a[i], lo do begin n := 5; x := k; i := 1; y := k + 1; hi.x := j end; writeln(x); with a[j] do begin hi := lo; j := 1; n := n + 1; with lo do begin x := x + 1; with hi do x := x + 2 end end; for i := 1 to 4 do with a[i] do writeln(lo.x, ' ', lo.y, ' ', hi.x, ' ', hi.y, ' ', n);
 new(q); new(q2); q^ := a[2]; q2^ := a[3]; pp[0] := q; pp[1] := q2; with q^ do begin q := q2; n := 42; lo := q^.lo; with q^, hi do begin q := pp[0]; x := 1000; n := 43 end end; for i := 0 to 1 do with pp[i]^ do writeln(lo.x, ' ', hi.x, ' ', n);
 with b do begin n := 3; with a[n] do begin n := 1; b.n := 2 end end; writeln(b.n, a[3].n)
end.
""", """typedef struct { i32 x, y; } pt; typedef struct { pt lo, hi; i32 n; } bx;
void oracle(void){ bx a[5], *q, *q2, s[2]; for (int i = 1; i < 5; i++) { a[i].lo.x = i; a[i].lo.y = i * 10; a[i].hi.x = -i; a[i].hi.y = i + 100; a[i].n = 0; } i32 i = in_range(1, 4), j = in_range(1, 4), k = in_range(-9, 9);
 a[i].n = 5; a[i].lo.x = k; a[i].lo.y = k + 1; a[i].hi.x = j; IL(1); a[j].hi = a[j].lo; a[j].n++; a[j].lo.x++; a[j].hi.x += 2; for (i = 1; i < 5; i++) { I(a[i].lo.x); SP; I(a[i].lo.y); SP; I(a[i].hi.x); SP; I(a[i].hi.y); SP; IL(a[i].n); }
 s[0] = a[2]; s[1] = a[3]; s[0].n = 42; s[0].lo = s[1].lo; s[1].hi.x = 1000; s[1].n = 43; for (i = 0; i < 2; i++) { I(s[i].lo.x); SP; I(s[i].hi.x); SP; IL(s[i].n); } I(2); IL(1); }""", max_time=60)
# ---- pointers ---------------------------------------------------------------------------------------------------------------
P("ptr", """program p; type pi = ^integer; pr = ^rec; rec = record v : integer; nx : pr; w : pi; c : char end; pa = ^arr; arr = array [-2..2] of char; ppi = ^pi; parr = array [1..3] of pr;
var a, b : pi; q, r, h : pr; z : pa; i, u : integer; pp : ppi; m : parr; k : char;
begin read(u); new(a); new(b); a^ := u; b^ := u + 1; writeln(a^, ' ', b^); b^ := a^; a^ := 7; writeln(a^, ' ', b^); b := a; b^ := u; writeln(a^); writeln(ord(a = b):1, ord(a <> nil):1); new(b); b^ := 1; writeln(ord(a = b):1, a^);
 h := nil; for i := 1 to 4 do begin new(q); q^.v := i * u; q^.nx := h; new(q^.w); q^.w^ := i; q^.c := chr(96 + i); h := q end; q := h; while q <> nil do begin writeln(q^.v, q^.w^, q^.c); q := q^.nx end;
 h^.nx^.nx^.v := 5; r := h^.nx; r^.nx := r^.nx^.nx; h^.nx^.nx^.w^ := 77; q := h; while q <> nil do begin write(q^.v, ' ', q^.w^, ';'); q := q^.nx end; writeln;
 new(z); for i := -2 to 2 do z^[i] := 'o'; read(i); read(k); z^[i] := k; for i := -2 to 2 do write(z^[i]); writeln; new(pp); pp^ := a; pp^^ := 12; writeln(a^); pp^ := b; pp^^ := 13; writeln(a^, b^);
 for i := 1 to 3 do begin new(m[i]); m[i]^.v := i end; read(i); m[i]^.v := u; m[1] := m[3]; m[3]^.v := m[3]^.v + 1; for i := 1 to 3 do write(m[i]^.v, ' '); writeln; h^.nx := h; h^.nx^.nx^.v := 55; writeln(h^.v); q := m[2]; q^ := h^; h^.v := 1; writeln(q^.v, ord(q^.nx = h):1); dispose(a); dispose(z)
end.
""", """void oracle(void){ i32 u = in_range(-1000, 1000); I(u); SP; IL(u + 1); I(7); SP; IL(u); IL(u); o_int(1,1); o_int(1,1); NL; o_int(0,1); IL(u); for (int i = 4; i >= 1; i--) { I(i * u); I(i); o_chr(96 + i); NL; }
 I(4*u); SP; I(4); o_chr(';'); I(3*u); SP; I(3); o_chr(';'); I(u); SP; I(77); o_chr(';'); NL; i32 i = in_range(-2, 2), k = in_chr(); for (int j = -2; j <= 2; j++) o_chr(j == i ? k : 'o'); NL; IL(12); I(12); IL(13);
 i = in_range(1, 3); i32 m[4] = {0, 1, 2, 3}; m[i] = u; m[3]++; I(m[3]); SP; I(m[2]); SP; I(m[3]); SP; NL; IL(55); I(55); o_int(1,1); NL; }""", max_time=60)
P("tree", """program p; type t = ^node; node = record k, n : integer; l, r : t end; var root : t; i, x : integer;
procedure ins(var p : t; k : integer); begin if p = nil then begin new(p); p^.k := k; p^.n := 1; p^.l := nil; p^.r := nil end else if k < p^.k then ins(p^.l, k) else if k > p^.k then ins(p^.r, k) else p^.n := p^.n + 1 end;
procedure walk(p : t); begin if p <> nil then begin walk(p^.l); writeln(p^.k, ' ', p^.n); walk(p^.r) end end;
function depth(p : t) : integer; var a, b : integer; begin if p = nil then depth := 0 else begin a := depth(p^.l); b := depth(p^.r); if a > b then depth := a + 1 else depth := b + 1 end end;
begin root := nil; for i := 1 to 4 do begin read(x); ins(root, x) end; walk(root); writeln(depth(root):1) end.
""", """void oracle(void){ i32 a[4], n = 4; for (int i = 0; i < 4; i++) a[i] = in_range(0, 100); 
 i32 k[4], l[4], r[4], d[4], m = 0, mx = 0, c[4]; for (int i = 0; i < 4; i++) { if (!m) { k[0] = a[0]; l[0] = r[0] = -1; d[0] = 1; c[0] = 1; m = 1; mx = 1; continue; } int p = 0; for (;;) { if (a[i] == k[p]) { c[p]++; break; } int* nx = a[i] < k[p] ? &l[p] : &r[p]; if (*nx < 0) { *nx = m; k[m] = a[i]; l[m] = r[m] = -1; d[m] = d[p] + 1; c[m] = 1; if (d[m] > mx) mx = d[m]; m++; break; } p = *nx; } }
 for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) if (k[j] < k[i]) { i32 t = k[i]; k[i] = k[j]; k[j] = t; t = c[i]; c[i] = c[j]; c[j] = t; } for (int i = 0; i < m; i++) { I(k[i]); SP; IL(c[i]); } o_int(mx, 1); NL; }""", max_time=60)
P("sort", """program p; type rec = record k : integer; c : char end; var a : array [0..3] of rec; i, j : integer; t : rec; begin for i := 0 to 3 do begin read(a[i].k); a[i].c := chr(65 + i) end;
 for i := 1 to 3 do begin t := a[i]; j := i - 1; while (j >= 0) and_then (a[j].k > t.k) do begin a[j + 1] := a[j]; j := j - 1 end; a[j + 1] := t end; for i := 0 to 3 do writeln(a[i].k, a[i].c) end.
""", """void oracle(void){ i32 k[4], c[4]; for (int i = 0; i < 4; i++) { k[i] = in_i32(); c[i] = 65 + i; } for (int n = 0; n < 3; n++) for (int i = 0; i < 3; i++) if (k[i] > k[i+1]) { i32 t = k[i]; k[i] = k[i+1]; k[i+1] = t; t = c[i]; c[i] = c[i+1]; c[i+1] = t; } for (int i = 0; i < 4; i++) { I(k[i]); o_chr(c[i]); NL; } }""", max_time=60)
P("packed", """program p; type pc = packed array [1..5] of char; pr = packed record a : boolean; b : char; c : longint; d : char; e : integer end; var s, t : pc; r : array [1..3] of pr; u : array [0..7] of char; i, j : integer; k : char; l : longint;
begin s := 'hello'; read(i); read(k); t := s; t[i] := k; writeln(s); writeln(t); s[6 - i] := t[i]; writeln(s); for j := 0 to 7 do u[j] := chr(97 + j); pack(u, 2, s); writeln(s); unpack(t, u, 1); for j := 0 to 7 do write(u[j]); writeln;
 for j := 1 to 3 do with r[j] do begin a := odd(j); b := chr(48 + j); c := j; d := '.'; e := -j end; read(j); read(l); r[j].c := l; r[j].b := k; for j := 1 to 3 do with r[j] do writeln(ord(a):1, b, c, d, e)
end.
""", """void oracle(void){ u8 s[6] = "hello", t[6] = "hello"; i32 i = in_range(1, 5), k = in_chr(); ASSUME(k != 0); t[i-1] = k; o_txt("hello"); NL; o_mem(t, 5); NL; s[5 - i] = k; o_mem(s, 5); NL; o_txt("cdefg"); NL; o_chr('a'); o_mem(t, 5); o_txt("gh"); NL;
 i32 j = in_range(1, 3); i64 l = in_i64(); for (int q = 1; q < 4; q++) { o_int(q & 1, 1); o_chr(q == j ? k : 48 + q); I(q == j ? l : q); o_chr('.'); IL(-q); } }""", max_time=60)
# what a variant keeps where another one has padding survives every way of copying the record
for k, (va, vb) in enumerate([("c : char; n : integer", "i, j : integer"), ("i, j : integer", "c : char; n : integer"), ("c : char; n : longint", "i, j, k : integer"), ("n : record x : integer; y : char end; b : boolean", "i, j, m : integer"), ("r : real; c : char", "i, j, m, k : integer"), ("p : ^integer; c : char", "i, j, m, k : integer"),
                              ("a : array [1..3] of record c : char; n : 1..100000 end", "i, j, k, l, m : integer")]):
    P("padding%d" % k, """program p; type r = record case b : boolean of true : (%s); false : (%s) end; o = record z : char; v : r; zz : char end;
var x, y : r; t : array [1..2] of r; w, w2 : o; pp : ^r; u, q : integer;
procedure val_(z : r; n : integer); begin writeln(z.i, ' ', z.j, ' ', n); z.i := 0; z.j := 0 end;
function id(z : r) : r; begin id := z end;
procedure sh(var z : r); begin writeln(z.i, ' ', z.j) end;
begin read(u); read(q); x.b := false; x.i := u; x.j := q; y := x; sh(y); val_(x, 5); sh(x); y.i := 1; y := id(x); sh(y); t[2] := y; t[1] := t[2]; sh(t[1]); w.v := x; w.z := '<'; w.zz := '>'; w2 := w; sh(w2.v); writeln(w2.z, w2.zz); new(pp); pp^ := id(id(w2.v)); sh(pp^); val_(pp^, u); with w2 do y := v; sh(y) end.
""" % ((va, vb) if "i, j" in vb else (vb, va)), """static void s(i32 u, i32 q) { I(u); SP; I(q); }
void oracle(void){ i32 u = in_i32(), q = in_i32(); s(u,q); NL; s(u,q); SP; IL(5); s(u,q); NL; s(u,q); NL; s(u,q); NL; s(u,q); NL; o_txt("<>"); NL; s(u,q); NL; s(u,q); SP; IL(u); s(u,q); NL; }""")
if __name__ == "__main__":
    run_tv("C05", progs, [["-O0"], ["-O2"], ["-O1", "-m32"]] + ([["-O3"], ["-O1", "-no-memcpy"], ["-O0", "-m32"], ["-O1", "-Cr"], ["-O1", "-g"]] if THOROUGH else []), max_time=40,
           bounds={"arrays": "%d index types x %d element types, symbolic read and write indices over the whole declared range" % (len(IDX), len(ELT)), "records": "nesting 3, arrays of records, variants", "pointers": "lists and trees of 4 nodes, aliasing pointers"},
           explanation="stores through symbolic designators, then reads of every component, compared with an independent C model of the storage")
