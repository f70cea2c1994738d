"""C08: calls bind parameters, locals, enclosing variables and results."""
from common import *

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


SW = "static void sw(i32 *a, i32 *b) { i32 t = *a; *a = *b; *b = t; }\n"
# ---- value and var parameters of every kind of type -------------------------------------------------------------------
# type, read statement, C type, input, write(pascal), write(C), new value in Pascal / C
TY = [("integer", "read(%s)", "i32", "in_i32()", "writeln(%s)", "IL(%s)", "%s + 1", "wadd(%s, 1)"),
      ("longint", "read(%s)", "i64", "in_i64()", "writeln(%s)", "IL(%s)", "%s - 3", "wsub64(%s, 3)"),
      ("char", "read(%s)", "i32", "ichr()", "writeln(ord(%s))", "IL(%s)", "succ(%s)", "(%s + 1)"),
      ("boolean", "read(ri); %s := odd(ri)", "i32", "(in_i32() & 1)", "writeln(ord(%s):1)", "o_int(%s, 1); NL", "not %s", "!%s"),
      ("real", "read(%s)", "f64", "in_f64()", "writeln(ord(%s > 2.5):1, ord(%s = 1.0):1)", "o_int(%s > 2.5, 1); o_int(%s == 1.0, 1); NL", "-%s", "-%s"),
      ("sub", "read(ri); %s := ri", "i32", "in_range(-5, 98)", "writeln(%s)", "IL(%s)", "%s + 1", "(%s + 1)"),
      ("en", "read(ri); %s := ev[ri]", "i32", "in_range(0, 2)", "writeln(ord(%s):1)", "o_int(%s, 1); NL", "succ(%s)", "(%s + 1)")]
for i, (ty, rd, ct, inp, wp, wc, nv, nvc) in enumerate(TY):
    def f(t, v):
        return t.replace("%s", v)
    P("kind_" + ty, """program p; type en = (ea, eb, ec, ed); sub = -5..99; var ev : array [0..2] of en; ri, g1 : integer; a, b, c : %(ty)s; g2 : integer;
procedure val(x, y : %(ty)s); begin %(wx)s; %(wy)s; x := %(nx)s; y := x; %(wx)s; %(wy)s; %(wa)s end;
procedure vr(var x : %(ty)s; y : %(ty)s; var z : %(ty)s); begin %(wx)s; x := %(nx)s; y := x; z := y; %(wz)s; %(wb)s end;
procedure both(var x, y : %(ty)s); var t : %(ty)s; begin t := x; x := y; y := t end;
function id(x : %(ty)s) : %(ty)s; begin id := x end;
function nxt(x : %(ty)s) : %(ty)s; var l : %(ty)s; begin l := %(nx)s; nxt := x; nxt := l end;
function res(var x : %(ty)s) = r : %(ty)s; begin r := x; x := %(nx)s end;
function cond(b : boolean; x, y : %(ty)s) : %(ty)s; begin cond := y; if b then cond := x end;
begin ev[0] := ea; ev[1] := eb; ev[2] := ec; g1 := 11; g2 := 22; %(ra)s; %(rb)s; c := a; val(a, b); %(wa)s; %(wb)s; vr(b, a, c); %(wa)s; %(wb)s; %(wc)s; both(a, b); %(wa)s; %(wb)s;
 a := id(id(c)); %(wa)s; read(ri); if odd(ri) then a := b; b := id(a); c := nxt(nxt2); %(wc)s; b := nxt2; c := res(b); %(wb)s; %(wc)s; a := cond(odd(ri), b, nxt2); %(wa)s; writeln(g1, g2)
end.
""".replace("nxt2", "id(c0)").replace("a, b, c : %(ty)s;", "a, b, c, c0 : %(ty)s;").replace("c := a; val", "c := a; c0 := a; val") %
      dict(ty=ty, ra=f(rd, "a"), rb=f(rd, "b"), wx=f(wp, "x"), wy=f(wp, "y"), wz=f(wp, "z"), wa=f(wp, "a"), wb=f(wp, "b"), wc=f(wp, "c"), nx=f(nv, "x")), """typedef double f64; typedef %(ct)s T; static i32 ichr(void) { i32 c = in_chr(); ASSUME((c >= 1) & (c < 254)); return c; } static void w(T x) { %(w)s; } static T nx(T x) { return %(n)s; }
void oracle(void){ T a = %(in)s, b = %(in)s, c = a, c0 = a; w(a); w(b); w(nx(a)); w(nx(a)); w(a); w(a); w(b); w(b); b = nx(b); c = b; w(c); w(b); w(a); w(b); w(c); T t = a; a = b; b = t; w(a); w(b);
 a = c; w(a); i32 ri = in_i32(); c = nx(c0); w(c); b = c0; c = b; b = nx(b); w(b); w(c); if (ri & 1) w(b); else w(c0); I(11); IL(22); }""" % {"ct": ct, "w": f(wc, "x"), "n": f(nvc, "x"), "in": inp})
# ---- structured parameters ------------------------------------------------------------------------------------------------
P("struct", """program p; type rec = record n : integer; a : array [1..4] of integer; c : char end; arr = array [0..5] of integer; pr = ^rec; var r, q : rec; a, b : arr; i, j, k : integer; m : array [1..3] of rec; pp : pr;
procedure showr(r : rec); var i : integer; begin write(r.n, ' ', ord(r.c)); for i := 1 to 4 do write(' ', r.a[i]); writeln end;
procedure showa(a : arr); var i : integer; begin for i := 0 to 5 do write(a[i], ' '); writeln end;
procedure rv(x : rec; i, v : integer); begin x.a[i] := v; x.n := 99; showr(x) end;
procedure rr(var x : rec; i, v : integer); begin x.a[i] := v; x.n := x.n + 1; showr(r) end;
procedure av(x : arr; i, v : integer); begin x[i] := v; showa(x) end;
procedure ar(var x : arr; i, v : integer); begin x[i] := v end;
procedure one(var x : integer; v : integer); begin x := v end;
procedure pv(p : pr; v : integer); begin p^.n := v; new(p); p^.n := 1000 end;
procedure pvr(var p : pr; v : integer); begin new(p); p^ := r; p^.n := v end;
function mk(i, v : integer) : rec; var t : rec; begin t := r; t.a[i] := v; t.n := i; mk := t end;
begin r.n := 1; r.c := 'x'; for i := 1 to 4 do r.a[i] := i * 10; for i := 0 to 5 do a[i] := i; read(i); read(j); read(k);
 rv(r, i, k); showr(r); rr(r, i, k); showr(r); av(a, j, k); showa(a); ar(a, j, k); showa(a); one(a[i], 5); one(r.a[i], 6); one(r.n, k); showa(a); showr(r); m[1] := r; m[2] := r; m[3] := r; rr(m[j div 2 + 1], i, 77); showr(m[1]); showr(m[2]); showr(m[3]);
 one(m[2].a[i], 55); showr(m[2]); q := mk(i, k); showr(q); showr(mk(i, 3)); new(pp); pp^ := r; pv(pp, k); showr(pp^); pvr(pp, 7); showr(pp^); rv(pp^, 1, 2); rr(pp^, 1, 2); showr(pp^); b := a; av(b, 0, a[j])
end.
""", """typedef struct { i32 n, a[5], c; } rec; static void sr(rec r) { I(r.n); SP; I(r.c); for (int i = 1; i <= 4; i++) { SP; I(r.a[i]); } NL; } static void sa(i32 *a) { for (int i = 0; i <= 5; i++) { I(a[i]); SP; } NL; }
static rec put(rec r, i32 i, i32 v) { for (int k = 1; k <= 4; k++) r.a[k] = k == i ? v : r.a[k]; return r; }
static void pa(i32 *a, i32 i, i32 v) { for (int k = 0; k <= 5; k++) a[k] = k == i ? v : a[k]; }
void oracle(void){ rec r = {1, {0, 10, 20, 30, 40}, 'x'}, t, m[4], q; i32 a[6] = {0, 1, 2, 3, 4, 5}, b[6]; i32 i = in_range(1, 4), j = in_range(0, 5), k = in_i32(); t = put(r, i, k); t.n = 99; sr(t); sr(r); r = put(r, i, k); r.n = 2; sr(r); sr(r); memcpy(b, a, sizeof a); pa(b, j, k); sa(b); sa(a); pa(a, j, k); sa(a);
 pa(a, i, 5); r = put(r, i, 6); r.n = k; sa(a); sr(r); int jj = in_pick2(j / 2 + 1); m[1] = m[2] = m[3] = r; sr(r); m[jj] = put(m[jj], i, 77); m[jj].n = wadd(m[jj].n, 1); sr(m[1]); sr(m[2]); sr(m[3]); m[2] = put(m[2], i, 55); sr(m[2]); t = put(r, i, k); t.n = i; sr(t); t = put(r, i, 3); t.n = i; sr(t);
 t = r; t.n = k; sr(t); t = r; t.n = 7; sr(t); q = put(t, 1, 2); q.n = 99; sr(q); sr(r); t = put(t, 1, 2); t.n = 8; sr(t); i32 v = 0; for (int x = 0; x <= 5; x++) if (x == j) v = a[x]; memcpy(b, a, sizeof a); pa(b, 0, v); sa(b); }""".replace("in_pick2(j / 2 + 1)", "(j < 2 ? 1 : j < 4 ? 2 : 3)"))
P("aliasing", SW and """program p; var a, b : integer; x : array [1..3] of integer; i : integer;
procedure add(var x, y : integer); begin x := x + y; y := y + 1; x := x * 2; writeln(x, ' ', y) end;
procedure g(var x : integer); begin a := a + 1; x := x + 10; writeln(a, ' ', x) end;
procedure h(x : integer; var y : integer); begin y := y + x; y := y + x; writeln(x, ' ', y) end;
procedure ix(var x, y : integer; var i : integer); begin i := 3; x := x + 1; y := i end;
begin read(a); read(b); add(a, b); add(a, a); g(a); g(b); h(a, a); h(b, a); x[1] := 10; x[2] := 20; x[3] := 30; read(i); ix(x[i], b, i); writeln(x[1], ' ', x[2], ' ', x[3], ' ', i, ' ', b); add(x[i], x[3]); writeln(x[3]) end.
""", """static void add(i32 *x, i32 *y) { *x = wadd(*x, *y); *y = wadd(*y, 1); *x = wmul(*x, 2); I(*x); SP; IL(*y); }
void oracle(void){ i32 a = in_i32(), b = in_i32(), x[4] = {0, 10, 20, 30}; add(&a, &b); add(&a, &a); a = wadd(a, 1); a = wadd(a, 10); I(a); SP; IL(a); a = wadd(a, 1); b = wadd(b, 10); I(a); SP; IL(b);
 i32 s = a; a = wadd(wadd(a, s), s); I(s); SP; IL(a); a = wadd(wadd(a, b), b); I(b); SP; IL(a); i32 i = in_range(1, 3); for (int k = 1; k <= 3; k++) { x[k] += (k == i); I(x[k]); SP; } I(3); SP; IL(3); add(&x[3], &x[3]); IL(x[3]); }""")
# ---- recursion, forward, mutual recursion ------------------------------------------------------------------------------------
P("recur", """program p; var n, a, b : integer; l : longint;
function fact(n : integer) : longint; begin if n <= 1 then fact := 1 else fact := fact(n - 1) * n end;
function fib(n : integer) : integer; begin if n < 2 then fib := n else fib := fib(n - 1) + fib(n - 2) end;
function even(n : integer) : boolean; forward;
function odd2(n : integer) : boolean; begin if n = 0 then odd2 := false else odd2 := even(n - 1) end;
function even(n : integer) : boolean; begin if n = 0 then even := true else even := odd2(n - 1) end;
procedure down(n : integer; var s : integer); var l : integer; begin l := n * a; if n > 0 then down(n - 1, s); s := s + l; writeln(l, ' ', s) end;
procedure q(x : integer); forward;
procedure pp(x, y : integer); begin writeln('p', x, ' ', y); if x > 0 then q(y) end;
procedure q; begin writeln('q', x); if x > 0 then pp(x - 1, x - 2) end;
function ack(m, n : integer) : integer; begin if m = 0 then ack := n + 1 else if n = 0 then ack := ack(m - 1, 1) else ack := ack(m - 1, ack(m, n - 1)) end;
function sum(n : integer) : integer; var t : integer; begin t := n; if n > 0 then t := t + sum(n - 1) + n; sum := t end;
begin read(n); read(a); writeln(fact(n)); writeln(fib(n)); writeln(ord(even(n)):1, ord(odd2(n)):1); b := 0; down(n, b); writeln(b); pp(n, 3); writeln(ack(2, n - 2)); writeln(sum(n)) end.
""", """static i64 fact(i64 n) { return n <= 1 ? 1 : n * fact(n - 1); } static i32 fib(i32 n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); } static i32 a;
static void down(i32 n, i32 *s) { if (n > 0) down(n - 1, s); i32 l = wmul(n, a); *s = wadd(*s, l); I(l); SP; IL(*s); }
static void q(i32 x); static void pp(i32 x, i32 y) { o_txt("p"); I(x); SP; IL(y); if (x > 0) q(y); } static void q(i32 x) { o_txt("q"); IL(x); if (x > 0) pp(x - 1, x - 2); }
static i32 ack(i32 m, i32 n) { return m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
void oracle(void){ i32 n = in_pick(2, 6); a = in_i32(); IL(fact(n)); IL(fib(n)); o_int(!(n & 1), 1); o_int(n & 1, 1); NL; i32 b = 0; down(n, &b); IL(b); pp(n, 3); IL(ack(2, n - 2)); IL(n * (n + 1)); }""")
P("deeprec", """program p; var n, v : integer;
function f(n, a, b, c : integer; var d : integer) : integer; var x, y : integer; begin x := a - b; y := b - c; d := d + 1; if n = 0 then f := x + y + d else begin f := f(n - 1, b, c, a, d) + x; f := f(n - 1, x, y, n, x) - y + d end end;
begin read(n); read(v); writeln(f(3, n, v, 5, n)); writeln(n) end.
""".replace("f := f(n - 1, b, c, a, d) + x; f := ", "x := f(n - 1, b, c, a, d) + x; f := "), """static i32 f(i32 n, i32 a, i32 b, i32 c, i32 *d) { i32 x = wsub(a, b), y = wsub(b, c); *d = wadd(*d, 1); if (!n) return wadd(wadd(x, y), *d); i32 t = f(n - 1, b, c, a, d); x = wadd(t, x); t = f(n - 1, x, y, n, &x); return wadd(wsub(t, y), *d); }
void oracle(void){ i32 n = in_i32(), v = in_i32(); i32 r = f(3, n, v, 5, &n); IL(r); IL(n); }""".replace("x = wadd(t, x)", "x = wadd(t, x)"))
# ---- nested routines ---------------------------------------------------------------------------------------------------------
P("nest", """program p; var g, n : integer;
procedure a(x : integer; var y : integer);
var l1 : integer; arr : array [1..3] of integer; r : record u, v : integer end;
 procedure b(z : integer);
 var l2 : integer;
  procedure c(w : integer);
  begin l2 := l2 + w; l1 := l1 + l2; y := y + x; x := x + 1; arr[2] := arr[2] + z; r.v := r.v + l1; g := g + l1; z := z + 1; writeln(l1, ' ', l2, ' ', x, ' ', y, ' ', z, ' ', w) end;
 begin l2 := z; c(z); c(l2); writeln(z, ' ', l2) end;
begin l1 := x; arr[1] := 1; arr[2] := x; arr[3] := 3; r.u := 4; r.v := 5; b(y); b(l1); writeln(l1, ' ', x, ' ', y); writeln(arr[1], ' ', arr[2], ' ', arr[3], ' ', r.u, ' ', r.v) end;
begin read(g); read(n); a(g, n); writeln(g, ' ', n) end.
""", """static i32 g, n; static i32 l1, l2, x, z, ar, rv; static i32 *y;
static void c(i32 w) { l2 = wadd(l2, w); l1 = wadd(l1, l2); *y = wadd(*y, x); x = wadd(x, 1); ar = wadd(ar, z); rv = wadd(rv, l1); g = wadd(g, l1); z = wadd(z, 1); I(l1); SP; I(l2); SP; I(x); SP; I(*y); SP; I(z); SP; IL(w); }
static void b(i32 zz) { z = zz; l2 = z; c(z); c(l2); I(z); SP; IL(l2); }
static void a(i32 xx, i32 *yy) { x = xx; y = yy; l1 = x; ar = x; rv = 5; b(*y); b(l1); I(l1); SP; I(x); SP; IL(*y); I(1); SP; I(ar); SP; I(3); SP; I(4); SP; IL(rv); }
void oracle(void){ g = in_i32(); n = in_i32(); a(g, &n); I(g); SP; IL(n); }""")
P("nestrec", """program p; var n, v : integer;
procedure outer(d, base : integer);
var mine : integer;
 procedure inner(k : integer);
  procedure deep; begin mine := mine + k * 10 + d; if k > 1 then inner(k - 1); mine := mine + 1 end;
 begin if k > 0 then deep; if (k = 1) and (d > 0) then outer(d - 1, mine); mine := mine + base end;
begin mine := base; inner(2); writeln(d, ' ', mine) end;
begin read(n); read(v); outer(n, v) end.
""", """typedef struct fr { i32 d, base, mine; } fr; static void outer(i32 d, i32 base); static void inner(fr *f, i32 k);
static void deep(fr *f, i32 k) { f->mine = wadd(f->mine, k * 10 + f->d); if (k > 1) inner(f, k - 1); f->mine = wadd(f->mine, 1); }
static void inner(fr *f, i32 k) { if (k > 0) deep(f, k); if (k == 1 && f->d > 0) outer(f->d - 1, f->mine); f->mine = wadd(f->mine, f->base); }
static void outer(i32 d, i32 base) { fr f = {d, base, base}; inner(&f, 2); I(d); SP; IL(f.mine); }
void oracle(void){ i32 n = in_pick(0, 4), v = in_i32(); outer(n, v); }""")
P("nestfun", """program p; var n, v : integer;
function f(a : integer; var b : integer) : integer;
 function g(c : integer) : integer; begin b := b + 1; g := a + b + c; if c > 100 then g := 0 end;
 procedure h; var a : integer; begin a := 100; b := b + a end;
begin f := 1; f := g(b); h; if a > 0 then f := g(2) + a end;
begin read(n); read(v); writeln(f(n, v)); writeln(v); writeln(f(v, n)); writeln(n) end.
""", """static i32 a, *b; static i32 g(i32 c) { *b = wadd(*b, 1); i32 r = wadd(wadd(a, *b), c); if (c > 100) r = 0; return r; }
static i32 f(i32 aa, i32 *bb) { i32 r; a = aa; b = bb; r = g(*b); *b = wadd(*b, 100); if (a > 0) r = wadd(g(2), a); return r; }
void oracle(void){ i32 n = in_i32(), v = in_i32(); i32 t = f(n, &v); IL(t); IL(v); t = f(v, &n); IL(t); IL(n); }""")
P("siblings", """program p; var n, v : integer;
function sib(x : integer) : integer;
 function p1(y : integer) : integer; forward;
 function p2(y : integer) : integer; begin x := x + 1; if y > 0 then p2 := p1(y - 1) + x else p2 := x end;
 function p1; begin x := x xor 85; if y > 0 then p1 := p2(y - 1) - x else p1 := -x end;
begin sib := p1(3) end;
begin read(n); writeln(sib(n)) end.
""", """static i32 x; static i32 p1(i32 y); static i32 p2(i32 y) { x = wadd(x, 1); if (y > 0) { i32 t = p1(y - 1); return wadd(t, x); } return x; } static i32 p1(i32 y) { x = x ^ 85; if (y > 0) { i32 t = p2(y - 1); return wsub(t, x); } return wneg(x); }
void oracle(void){ i32 n = in_i32(); x = n; IL(p1(3)); }""")
P("levels", """program p; var v, n : integer;
procedure lev(a : integer); procedure l2(b : integer); procedure l3(c : integer); procedure l4(d : integer); procedure l5(e : integer); begin a := a + e; b := b xor a; c := c xor b; d := d + 1; writeln(d xor c) end; begin l5(a); l5(d); writeln(d) end; begin l4(b); l4(5); writeln(c) end; begin l3(a); l3(7); writeln(b) end; begin l2(a); writeln(a) end;
begin read(v); lev(v) end.
""", """static i32 la, lb, lc, ld; static void l5(i32 e) { la = wadd(la, e); lb ^= la; lc ^= lb; ld = wadd(ld, 1); IL(ld ^ lc); } static void l4(i32 d) { ld = d; l5(la); l5(ld); IL(ld); } static void l3(i32 c) { lc = c; l4(lb); l4(5); IL(lc); } static void l2(i32 b) { lb = b; l3(la); l3(7); IL(lb); }
void oracle(void){ i32 v = in_i32(); la = v; l2(la); IL(la); }""")
# ---- routines as parameters ----------------------------------------------------------------------------------------------------
P("procparam", """program p; var n, v, r : integer;
function twice(function f(x : integer) : integer; x : integer) : integer; begin twice := f(f(x)) end;
procedure each(procedure p(i : integer; var s : integer); m : integer); var i, s : integer; begin s := m; for i := 1 to 3 do p(i, s); writeln(s) end;
function inc3(x : integer) : integer; begin inc3 := x + 3 end;
function dbl(x : integer) : integer; begin dbl := x * 2 end;
function pass(function g(x : integer) : integer; y : integer) : integer; begin pass := twice(g, y) + g(1) end;
procedure addto(i : integer; var s : integer); begin s := s + i * v; r := r + 1 end;
function apply2(function f(a, b : integer) : integer; a, b : integer) : integer; begin apply2 := f(b, a) end;
function minus(a, b : integer) : integer; begin minus := a - b end;
function chooser(b : boolean; function f(x : integer) : integer; function g(x : integer) : integer; x : integer) : integer; begin if b then chooser := f(x) else chooser := g(x) end;
begin read(n); read(v); r := 0; writeln(twice(inc3, n)); writeln(twice(dbl, n)); writeln(pass(dbl, v)); writeln(pass(inc3, v)); each(addto, n); writeln(r); writeln(apply2(minus, n, v)); writeln(chooser(n > v, inc3, dbl, n)) end.
""", """void oracle(void){ i32 n = in_i32(), v = in_i32(); IL(wadd(n, 6)); IL(wmul(n, 4)); IL(wadd(wmul(v, 4), 2)); IL(wadd(v, 10)); IL(wadd(n, wmul(v, 6))); IL(3); IL(wsub(v, n)); if (n > v) IL(wadd(n, 3)); else IL(wmul(n, 2)); }""")
P("closure", """program p; var n, v, g : integer;
function twice(function f(x : integer) : integer; x : integer) : integer; begin twice := f(f(x)) end;
procedure run(procedure q); begin q; q end;
procedure outer(a : integer);
var cnt : integer;
 function addc(x : integer) : integer; begin cnt := cnt + 1; addc := x + a end;
 procedure bump; begin cnt := cnt * 2; a := a + 1; g := g + cnt end;
begin cnt := 1; writeln(twice(addc, n)); run(bump); writeln(cnt, ' ', a); if a < 5 then outer(a + 1); writeln(twice(addc, v)); writeln(cnt, ' ', a) end;
procedure rec(d : integer; procedure q); var me : integer; procedure mine; begin me := me + 1; writeln(d, ' ', me) end;
begin me := d * 10; if d = 0 then begin q; mine; q end else if d = 2 then rec(d - 1, mine) else rec(d - 1, q) end;
procedure nop; begin writeln('nop') end;
begin read(n); read(v); g := 0; outer(v); writeln(g); rec(2, nop); rec(4, nop) end.
""", """static i32 n, v, g; static void outer(i32 a) { i32 c = 1; c += 2; IL(wadd(wadd(n, a), a)); for (int i = 0; i < 2; i++) { c *= 2; a = wadd(a, 1); g = wadd(g, c); } I(c); SP; IL(a); if (a < 5) outer(a + 1); c += 2; IL(wadd(wadd(v, a), a)); I(c); SP; IL(a); }
void oracle(void){ n = in_i32(); v = in_range(-2, 100); outer(v); IL(g); static const int e[12] = { 2, 21, 0, 1, 2, 22, 2, 21, 0, 1, 2, 22 }; for (int k = 0; k < 12; k += 2) { I(e[k]); SP; IL(e[k + 1]); } }""")
P("protectedp", """program p; type t = array [1..4] of integer; var n, v : integer; a : t;
procedure q(protected x, y : integer; protected var b : t; var c : integer; protected d : t); var i : integer; begin i := x; c := c + b[i] + y; writeln(x, ' ', y, ' ', b[1], ' ', c, ' ', d[2]) end;
function lotsof(a, b, c, d, e, f, g, h, i, j : integer; k : longint; l : char; m : boolean; n : real) : longint; begin lotsof := a + 2 * b + 3 * c - d + e - f + g - h + i - j + k; if m and (l = 'z') and (n = 0.5) then lotsof := 77 end;
begin read(n); read(v); a[1] := v; a[2] := 2; a[3] := 3; a[4] := 4; q(n, v, a, v, a); writeln(v); q(2, 3, a, a[2], a); writeln(a[2]); writeln(lotsof(n, v, 1, 2, 3, 4, 5, 6, 7, 8, 9, 'z', odd(v), 0.5)) end.
""", """void oracle(void){ i32 n = in_range(1, 4), v = in_i32(), a[5] = {0, v, 2, 3, 4}; i32 an = n == 1 ? v : n, v0 = v; v = wadd(wadd(v, an), v); I(n); SP; I(v0); SP; I(a[1]); SP; I(v); SP; IL(2); IL(v); I(2); SP; I(3); SP; I(a[1]); SP; I(7); SP; IL(2); IL(7);
 if (v & 1) IL(77); else IL((i64)wsub(wadd(wsub(wadd(wsub(wadd(wsub(wadd(wadd(n, wmul(2, v)), 3), 2), 3), 4), 5), 6), 7), 8) + 9); }""".replace("if (v & 1) IL(77); else IL((i64)wsub(wadd(wsub(wadd(wsub(wadd(wsub(wadd(wadd(n, wmul(2, v)), 3), 2), 3), 4), 5), 6), 7), 8) + 9)", "i32 s = wadd(n, wmul(2, v)); s = wadd(s, 3); s = wadd(s, -2 + 3 - 4 + 5 - 6 + 7 - 8); if (v & 1) IL(77); else IL((i64)s + 9)"))
P("locals", """program p; var n, v : integer;
procedure s(x : integer); const k = 7; type t = record a, b : integer end; var r : t; y : array [1..3] of t; i : integer; begin r.a := x; r.b := k; for i := 1 to 3 do y[i] := r; y[2].a := y[2].a + 1; writeln(y[1].a, ' ', y[2].a, ' ', y[3].b); if x > 0 then s(x - 5); writeln(r.a, ' ', y[2].a, ' ', i) end;
procedure noparam; var n : integer; begin n := v; v := n + 1; n := 0 end;
function noargs : integer; begin noargs := v; v := v + 1 end;
function useself : integer; begin useself := noargs * 10 + noargs end;
function early(x : integer) : integer; label 9; begin early := 1; if x > 10 then goto 9; early := 2; if x > 5 then goto 9; early := 3; 9: end;
begin read(n); read(v); s(n); noparam; writeln(n, ' ', v); n := noargs; writeln(n, ' ', v); writeln(early(n):1) end.
""".replace(" y[2].a, ' ', i)", " y[2].a)"), """static void s(i32 x) { I(x); SP; I(x + 1); SP; IL(7); if (x > 0) s(x - 5); I(x); SP; IL(x + 1); }
void oracle(void){ i32 n = in_range(-10, 17), v = in_i32(); s(n); v = wadd(v, 1); I(n); SP; IL(v); n = v; v = wadd(v, 1); I(n); SP; IL(v); o_int(n > 10 ? 1 : n > 5 ? 2 : 3, 1); NL; }""")
if __name__ == "__main__":
    run_tv("C08", progs, [["-O0"], ["-O2"], ["-O1", "-m32"], ["-O1", "-Cr"], ["-O0", "-no-memcpy"]] + ([["-O3"], ["-O0", "-m32"]] if THOROUGH else []), max_time=60,
           bounds={"recursion": "depth <= 6 (direct, mutual), nested routines to 5 levels", "values": "all argument values", "programs": "%d call-shape programs" % len(progs)},
           explanation="argument passing, results, nesting and procedural parameters against C with explicit frames")
