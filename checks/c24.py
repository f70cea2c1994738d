"""C24: schema types have the bounds of their discriminants; conformant array parameters expose the actual argument."""
import random
from common import *
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


# ---- schema types ---------------------------------------------------------------------------------------
TYPES = """type color = (red, green, blue, white, black); sub = 1..10;
 sa(N : integer) = array [0..n] of integer; sb(lo, hi : integer) = array [lo..hi] of integer; sc(m : integer) = array [m..12] of longint;
 sd(m, n : integer) = array [m..9, 1..n] of integer; se(c : color) = array [red..c] of integer; sf(d, c : char) = array [d..c] of char;
 sg(n : sub) = array [1..n] of real; sh(a, b, c, d : integer) = array [c..d, a..b] of integer; si(n : integer) = array [1..n] of array [0..2] of integer;
 sr(m, n : integer) = m..n; ss(n : integer) = set of 0..n; st(m, n : integer) = set of m..n; su(c : color) = set of green..c;
"""


def schema_unit(name, rng):
    """Instances of every schema with random discriminants: fill, read one element with a symbolic index, sum, neighbours intact"""
    n = rng.randint(1, 9)
    lo = rng.randint(-9, 5)
    hi = lo + rng.randint(0, 9)
    m = rng.randint(5, 12)
    dm, dn = rng.randint(4, 9), rng.randint(1, 4)
    c = rng.randint(0, 4)
    ch = rng.randint(0, 8)
    g = rng.randint(1, 10)
    a, b, cc, d = 1, 0, 0, 0
    a = rng.randint(-3, 3); b = a + rng.randint(0, 3); cc = rng.randint(-3, 3); d = cc + rng.randint(0, 3)
    k = rng.randint(1, 5)
    rm = rng.randint(-20, 20); rn = rm + rng.randint(1, 12)
    sn = rng.randint(3, 70)
    tm = rng.randint(-4, 20); tn = tm + rng.randint(1, 40)
    uc = rng.randint(1, 4)
    colors = ["red", "green", "blue", "white", "black"]
    pas = "program p;\n" + TYPES + f""" ta = sa({n}); tb = sb({lo}, {hi}); tr = sr({rm}, {rn}); rec = record f : integer; a : tb; g : sb({lo}, {hi}); h : integer end;
var g0 : integer; va : ta; g1 : integer; vb, wb : tb; g2 : integer; vc : sc({m}); g3 : integer; vd : sd({dm}, {dn}); g4 : integer; ve : se({colors[c]}); vf : sf('b', '{chr(98 + ch)}'); g5 : integer; vg : sg({g}); g6 : integer;
  vh : sh({a}, {b}, {cc}, {d}); g7 : integer; vi : si({k}); g8 : integer; vr : tr; x0 : ss({sn}); x1 : st({tm}, {tn}); x2 : su({colors[uc]}); x : array [{rm}..{rn}] of integer; rc : rec; pp : ^tb; ar : array [1..2] of sa({n});
  i, j, v, w : integer; q : color; z : char; s : integer;
procedure guards; begin if (g0 <> 1) or (g1 <> 2) or (g2 <> 3) or (g3 <> 4) or (g4 <> 5) or (g5 <> 6) or (g6 <> 7) or (g7 <> 8) or (g8 <> 9) then writeln('guard') end;
function total(a : tb) : integer; var i, t : integer; begin t := 0; for i := {lo} to {hi} do begin t := t + a[i]; a[i] := 0 end; total := t end;
procedure bump(var a : tb; k : integer); begin a[k] := a[k] + 1 end;
begin
 g0 := 1; g1 := 2; g2 := 3; g3 := 4; g4 := 5; g5 := 6; g6 := 7; g7 := 8; g8 := 9;
 read(v); read(w);
 for i := 0 to {n} do va[i] := v + i; for i := {lo} to {hi} do begin vb[i] := v - i; rc.a[i] := i; rc.g[i] := -i end; for i := {m} to 12 do vc[i] := w * 3 + i;
 for i := {dm} to 9 do for j := 1 to {dn} do vd[i, j] := v + 10 * i + j; for q := red to {colors[c]} do ve[q] := v + ord(q); for z := 'b' to '{chr(98 + ch)}' do vf[z] := succ(z); for i := 1 to {g} do vg[i] := i / 2;
 for i := {cc} to {d} do for j := {a} to {b} do vh[i, j] := v - 10 * i - j; for i := 1 to {k} do for j := 0 to 2 do vi[i][j] := w + 5 * i + j; for i := 0 to {n} do begin ar[1][i] := i; ar[2][i] := v end; rc.f := 11; rc.h := 12;
 guards;
 read(i); writeln(va[i], ' ', ar[1][i], ' ', ar[2][i]); read(i); writeln(vb[i], ' ', rc.a[i], ' ', rc.g[i], rc.f, rc.h); wb := vb; vb[i] := w; writeln(total(vb), ' ', wb[i]); bump(wb, i); writeln(wb[i], ' ', total(wb)); new(pp); pp^ := wb; wb[i] := 0; writeln(pp^[i], ' ', vb[i]); rc.g := pp^; writeln(rc.g[i], ' ', rc.a[i]);
 read(i); writeln(vc[i]); read(i); read(j); writeln(vd[i, j]); read(s); writeln(ve[succ(red, s)]); read(z); writeln(vf[z]); read(i); writeln(trunc(vg[i] * 2)); read(i); read(j); writeln(vh[i, j]); read(i); read(j); writeln(vi[i][j], ' ', vi[i, j]);
 read(i); vr := i; x[vr] := v; writeln(vr, ' ', x[vr]);
 x0 := [i + {-rm}, {sn}]; x1 := [{tm}..{tn}] - [{tm} + (i + {-rm})]; read(j); writeln(ord(j in x0), ord(j in x1)); x2 := [green..{colors[uc]}]; read(s); writeln(ord(succ(red, s) in x2));
 guards; writeln(sizeof(va), ' ', sizeof(vb), ' ', sizeof(vc), ' ', sizeof(vd), ' ', sizeof(ve), ' ', sizeof(vf), ' ', sizeof(vg), ' ', sizeof(vh), ' ', sizeof(vi))
end.
"""
    nb = hi - lo + 1
    orc = f"""void oracle(void){{ i32 v = in_range(-8, 7), w = in_range(0, 7), i, j, s, z;
 i = in_range(0, {n}); I(v + i); SP; I(i); SP; IL(v);
 i = in_pick({lo}, {hi}); I(v - i); SP; I(i); SP; I(-i); I(11); IL(12); {{ i32 t = {nb} * v - ({sum(range(lo, hi + 1))}); I(t - (v - i) + w); SP; IL(v - i); I(v - i + 1); SP; IL(t + 1); I(v - i + 1); SP; IL(w); I(v - i + 1); SP; IL(i); }}
 i = in_range({m}, 12); IL(w * 3 + i); i = in_range({dm}, 9); j = in_range(1, {dn}); IL(v + 10 * i + j); s = in_range(0, {c}); IL(v + s); z = in_chr(); ASSUME(z >= 'b' && z <= {98 + ch}); o_chr(z + 1); NL; i = in_range(1, {g}); IL(i); i = in_range({cc}, {d}); j = in_range({a}, {b}); IL(v - 10 * i - j); i = in_range(1, {k}); j = in_range(0, 2); I(w + 5 * i + j); SP; IL(w + 5 * i + j);
 i = in_range({rm}, {min(rn, rm + min(sn, tn - tm))}); I(i); SP; IL(v); {{ i32 k = i - ({rm}); j = in_range(-5, 75); o_int((j == k) | (j == {sn}), 0); o_int((j >= {tm}) & (j <= {tn}) & (j != {tm} + k), 0); NL; }} s = in_pick(0, 4); o_int((s >= 1) & (s <= {uc}), 0); NL;
 {' SP; '.join(f'I({z});' for z in [4 * (n + 1), 4 * nb, 8 * (13 - m), 4 * (10 - dm) * dn, 4 * (c + 1), ch + 1, 8 * g, 4 * (b - a + 1) * (d - cc + 1), 12 * k])} NL; }}"""
    P(name, pas, orc)


for u in range(24 if not THOROUGH else 120):
    schema_unit(f"schema{u}", random.Random(hash_(f"c24s{u}/{SEED}")))

# ---- conformant array parameters ------------------------------------------------------------------------
P("bounds", """program p; type color = (red, green, blue, white); sub = -5..20;
var a : array [3..7] of integer; b : array [-2..0] of integer; c : array [red..blue] of integer; d : array ['d'..'h'] of integer; e : array [sub] of integer; f : array [boolean] of integer; g : array [green..green] of integer; k, v : integer; n : color; ch : char;
procedure p1(var x : array [lo..hi : integer] of integer; k : integer); var i : integer; begin for i := lo to hi do x[i] := v + i; writeln(lo, ' ', hi, ' ', x[lo + k], ' ', x[hi - k]); x[lo + k] := -1 end;
procedure p2(x : array [lo..hi : integer] of integer; k : integer); var i : integer; begin writeln(lo, ' ', hi, ' ', x[lo + k]); for i := hi downto lo do x[i] := 77; writeln(x[lo + k]) end;
procedure p3(var x : array [l..h : color] of integer; k : integer); var i : color; begin for i := l to h do x[i] := v + ord(i); writeln(ord(l), ord(h), ' ', x[succ(l, k)]) end;
procedure p4(var x : array [l..h : char] of integer; k : integer); var i : char; begin for i := l to h do x[i] := v + ord(i); writeln(l, h, ' ', x[succ(l, k)], x[h]) end;
procedure p5(var x : array [l..h : boolean] of integer; k : integer); var i : boolean; begin for i := l to h do x[i] := v + ord(i); writeln(ord(l), ord(h), ' ', x[k > 0]) end;
procedure p6(var x : array [l..h : sub] of integer; k : integer); var i : sub; begin for i := l to h do x[i] := v + i; writeln(l, ' ', h, ' ', x[k]) end;
begin read(v); read(k); p1(a, k); p1(b, k); p2(a, k); writeln(a[3 + k], ' ', a[6]); p2(b, k); writeln(b[k - 2]); p3(c, k); p3(g, 0); writeln(c[blue]); p4(d, k); writeln(d['h'], d['d']); p5(f, k); p6(e, k); writeln(e[20], ' ', e[-5]) end.
""", """static i32 v, k; static void p1(i32 lo, i32 hi) { I(lo); SP; I(hi); SP; I(v + lo + k); SP; IL(v + hi - k); }
void oracle(void){ v = in_range(-1000, 1000); k = in_range(0, 2); p1(3, 7); I(-2); SP; I(0); SP; I(v - 2 + k); SP; IL(k == 2 ? v - 2 : v - k); I(3); SP; I(7); SP; IL(-1); IL(77); I(-1); SP; IL(v + 6); I(-2); SP; I(0); SP; IL(-1); IL(77); IL(-1);
 I(0); I(2); SP; IL(v + k); I(1); I(1); SP; IL(v + 1); IL(v + 2); o_txt("dh "); I(v + 100 + k); IL(v + 104); I(v + 104); IL(v + 100); I(0); I(1); SP; IL(v + (k > 0)); I(-5); SP; I(20); SP; IL(v + k); I(v + 20); SP; IL(v - 5); }""")
P("elements", """program p; type rec = record a, b : integer; c : char end; row = array [1..3] of integer; s5 = string[5]; cs = set of 0..40; pi = ^integer; col = (red, green, blue);
var l : array [2..4] of longint; r : array [1..3] of real; c : array [0..2] of char; e : array [3..5] of rec; m : array [4..6] of row; s : array [1..3] of s5; t : array [1..3] of cs; q : array [1..3] of pi; b : array [7..9] of boolean; n : array [1..3] of col; v, k, i : integer;
procedure pl(var x : array [l..h : integer] of longint); var i : integer; begin for i := l to h do x[i] := x[i] * 2 + v; writeln(x[l + k]) end;
procedure pr(var x : array [l..h : integer] of real); var i : integer; begin for i := l to h do x[i] := i / 2; writeln(trunc(x[l + k] * 2)) end;
procedure pc(var x : array [l..h : integer] of char; y : char); begin x[l + k] := y; writeln(x[l], x[l + 1], x[h]); writeln(x, ':') end;
procedure pe(var x : array [l..h : integer] of rec); var t : rec; begin x[l + k].a := v; x[l + k].b := x[l].a + 1; t := x[h]; x[h] := x[l]; x[l] := t; with x[l + 1] do begin b := b + 1; c := 'w' end; writeln(x[l].a, ' ', x[l].b, ' ', x[h].a, ' ', x[h].b, ' ', x[l + 1].b, x[l + 1].c) end;
procedure pm(var x : array [l..h : integer] of row); begin x[l + k][2] := v; x[h, 3] := x[l, 2] + 1; x[l + 1] := x[h]; writeln(x[l + k, 2], ' ', x[l + 1][3]) end;
procedure ps(var x : array [l..h : integer] of s5); begin x[l + k] := 'xyz'; x[h][1] := 'Q'; writeln(x[l], x[l + 1], x[h], length(x[l + k])) end;
procedure pt(var x : array [l..h : integer] of cs); begin x[l + k] := x[l + k] + [5, v]; writeln(ord(5 in x[l]), ord(v in x[l + k]), ord(5 in x[h])) end;
procedure pq(x : array [l..h : integer] of pi); begin x[l + k]^ := v; x[l] := x[h]; writeln(x[l]^, ' ', x[l + 1]^) end;
procedure pb(var x : array [l..h : integer] of boolean); begin x[l + k] := not x[l + k]; writeln(ord(x[l]), ord(x[l + 1]), ord(x[h])) end;
procedure pn(var x : array [l..h : integer] of col); begin x[l + k] := succ(x[l + k]); writeln(ord(x[l]), ord(x[l + 1]), ord(x[h])) end;
begin read(v); read(k); for i := 1 to 3 do begin l[i + 1] := i; s[i] := 'ab'; t[i] := [i]; new(q[i]); q[i]^ := i; b[i + 6] := i = 2; n[i] := red; e[i + 2].a := 10 * i; e[i + 2].b := i; e[i + 2].c := 'c'; m[i + 3][1] := i; m[i + 3][2] := 20 + i; m[i + 3][3] := 30 + i end; c[0] := 'a'; c[1] := 'b'; c[2] := 'c';
 pl(l); writeln(l[2 + k]); pr(r); pc(c, '#'); writeln(c[k]); pe(e); writeln(e[3].a, ' ', e[4].c, ' ', e[5].a); pm(m); writeln(m[4][2], ' ', m[5][1], ' ', m[6][2]); ps(s); writeln(s[1], s[2], s[3]); pt(t); writeln(ord(5 in t[2])); pq(q); writeln(q[1]^, ' ', q[2]^, ' ', q[3]^); pb(b); writeln(ord(b[8])); pn(n); writeln(ord(n[2])) end.
""", """void oracle(void){ i32 v = in_range(0, 40), k = in_pick(0, 2), i; IL(2 * (k + 1) + v); IL(2 * (k + 1) + v); IL(k + 1); { char c[4] = "abc"; c[k] = '#'; o_mem(c, 3); NL; o_mem(c, 3); o_chr(':'); NL; o_chr('#'); NL; }
 { i32 a[3] = {10, 20, 30}, b[3] = {1, 2, 3}; a[k] = v; b[k] = a[0] + 1; i32 t = a[2]; a[2] = a[0]; a[0] = t; t = b[2]; b[2] = b[0]; b[0] = t; b[1]++; I(a[0]); SP; I(b[0]); SP; I(a[2]); SP; I(b[2]); SP; I(b[1]); o_chr('w'); NL; I(a[0]); SP; o_chr('w'); SP; IL(a[2]); }
 { i32 m[3][3]; for (i = 0; i < 3; i++) { m[i][0] = i + 1; m[i][1] = 21 + i; m[i][2] = 31 + i; } m[k][1] = v; m[2][2] = m[0][1] + 1; for (i = 0; i < 3; i++) m[1][i] = m[2][i]; I(m[k][1]); SP; IL(m[1][2]); I(m[0][1]); SP; I(m[1][0]); SP; IL(m[2][1]); }
 { const char *s[3] = {"ab", "ab", "ab"}; s[k] = "xyz"; o_txt(s[0]); o_txt(s[1]); o_chr('Q'); o_txt(s[2] + 1); IL(3); o_txt(s[0]); o_txt(s[1]); o_chr('Q'); o_txt(s[2] + 1); NL; }
 { int f0 = (k == 0), f2 = (k == 2); I(f0); I(1); IL(f2); IL(k == 1); }
 { i32 q[3] = {1, 2, 3}; q[k] = v; I(q[2]); SP; IL(q[1]); I(q[0]); SP; I(q[1]); SP; IL(q[2]); }
 I(k == 0); I(k != 1); IL(k == 2); IL(k != 1); I(k == 0); I(k == 1); IL(k == 2); IL(k == 1); }""")
def model():
    return r"""typedef struct { i32 *d; i32 l, h; } V; static i32 g, v, k; static i32 A[5], B[3];
#define AT(x, i) ((x).d[(i) - (x).l])
static void fill(V x, i32 n) { for (i32 i = x.l; i <= x.h; i++) AT(x, i) = n + i; }
static i32 sum(V x) { i32 t = 0; for (i32 i = x.l; i <= x.h; i++) t += AT(x, i); return t; }
static i32 get(V x, i32 n) { return AT(x, x.l + n); }
static V cp(V x, i32 *buf) { for (i32 i = x.l; i <= x.h; i++) buf[i - x.l] = AT(x, i); x.d = buf; return x; }
static void outer(V x, i32 n) { if (n > 0) outer(x, n - 1); else fill(x, v); AT(x, x.l)++; g += sum(x); }
static void byval(V x0, V y) { i32 b[8]; V x = cp(x0, b); fill(x, 0); I(sum(x)); SP; I(sum(y)); SP; I(get(x, k)); SP; IL(get(y, k)); AT(y, y.l + k) = AT(x, x.h); }
static void deep(V x0, i32 n) { i32 b[8]; V x = cp(x0, b); AT(x, x.l + k)++; if (n > 0) deep(x, n - 1); else { I(AT(x, x.l + k)); SP; IL(AT(x, x.h)); } IL(AT(x, x.l + k)); }
static void inner3(V x, V y, V ox) { AT(x, x.l) = AT(y, y.h) + ox.l * 100 + ox.h; I(x.l); SP; I(x.h); SP; I(ox.l); SP; I(ox.h); SP; I(y.l); SP; IL(y.h); }
static void nest(V x, V y0, i32 last) { i32 b[8]; V y = cp(y0, b); i32 l; for (l = y.l; l <= x.h; l++) if (l >= y.l && l <= y.h) AT(y, l) = AT(x, x.h) + 5; AT(x, x.h) = last; inner3(x, y, x); inner3(y, y, x); I(AT(x, x.l)); SP; IL(AT(y, y.l)); I(sum(x)); SP; IL(sum(y)); }
void oracle(void){ v = in_range(-500, 500); k = in_pick(0, 2); V a = {A, 3, 7}, b = {B, -4, -2}; outer(a, 2); I(g); SP; I(A[0]); SP; I(A[1]); SP; IL(get(a, k)); fill(b, v); byval(a, b); I(A[0]); SP; I(B[0]); SP; I(B[1]); SP; IL(B[2]); byval(b, a); I(sum(a)); SP; IL(sum(b)); deep(a, 2); IL(A[k]); fill(a, 10); fill(b, 20); nest(a, b, LASTA); I(sum(a)); SP; IL(sum(b)); nest(b, b, LASTB); IL(sum(b)); }"""


P("pass_on", """program p; var a : array [3..7] of integer; b : array [-4..-2] of integer; g, v, k, i : integer;
procedure fill(var x : array [l..h : integer] of integer; n : integer); var i : integer; begin for i := l to h do x[i] := n + i end;
function sum(x : array [l..h : integer] of integer) : integer; var i, t : integer; begin t := 0; for i := l to h do begin t := t + x[i]; x[i] := 0 end; sum := t end;
function get(protected x : array [l..h : integer] of integer; n : integer) : integer; begin get := x[l + n] end;
procedure outer(var x : array [l..h : integer] of integer; n : integer); begin if n > 0 then outer(x, n - 1) else fill(x, v); x[l] := x[l] + 1; g := g + sum(x) end;
procedure byval(x : array [l..h : integer] of integer; var y : array [m..n : integer] of integer); begin fill(x, 0); writeln(sum(x), ' ', sum(y), ' ', get(x, k), ' ', get(y, k)); y[m + k] := x[h] end;
procedure deep(x : array [l..h : integer] of integer; n : integer); begin x[l + k] := x[l + k] + 1; if n > 0 then deep(x, n - 1) else writeln(x[l + k], ' ', x[h]); writeln(x[l + k]) end;
procedure nest(var x : array [l..h : integer] of integer; y : array [m..n : integer] of integer);
 procedure inner(q : integer); var l : integer; begin for l := m to h do if (l >= m) and (l <= n) then y[l] := x[h] + q; x[h] := 1234 end;
 procedure inner2; procedure inner3(var x : array [u..w : integer] of integer); begin x[u] := y[n] + l * 100 + h; writeln(u, ' ', w, ' ', l, ' ', h, ' ', m, ' ', n) end; begin inner3(x); inner3(y); writeln(x[l], ' ', y[m]) end;
begin inner(5); inner2; writeln(sum(x), ' ', sum(y)) end;
begin read(v); read(k); g := 0; outer(a, 2); writeln(g, ' ', a[3], ' ', a[4], ' ', get(a, k)); fill(b, v); byval(a, b); writeln(a[3], ' ', b[-4], ' ', b[-3], ' ', b[-2]); byval(b, a); writeln(sum(a), ' ', sum(b)); deep(a, 2); writeln(a[3 + k]); fill(a, 10); fill(b, 20); nest(a, b); writeln(sum(a), ' ', sum(b)); nest(b, b); writeln(sum(b)) end.
""", model().replace("LASTA", "1234").replace("LASTB", "1234"))
P("shared_and_mixed", """program p; type row = array [2..4] of integer; var a, b : array [2..5] of integer; c : array [0..1] of integer; d : array [0..1] of char; k, v, i : integer;
procedure two(var x, y : array [l..h : integer] of integer; var z : array [m..n : integer] of integer); var i, t : integer; begin for i := l to h do begin t := x[i]; x[i] := y[i]; y[i] := t end; for i := m to n do z[i] := l + h + i; writeln(l, h, m, n, ' ', x[l + k], ' ', y[h - k]) end;
procedure vals(x, y : array [l..h : integer] of integer; q : integer; z : array [m..n : integer] of char; r : integer); begin x[l + k] := q; y[h - k] := r; writeln(x[l], ' ', y[l], ' ', x[h], ' ', y[h], z[m], z[n], l, h, m, n, q, r) end;
procedure fwd(var x, y : array [l..h : integer] of integer; k : integer); begin two(y, x, c); if k > 0 then vals(x, x, k, d, 9) else vals(y, x, 8, 'yz', 7) end;
begin read(v); read(k); for i := 2 to 5 do begin a[i] := v + i; b[i] := v - i end; d := 'mn'; two(a, b, c); writeln(a[2], ' ', b[2], ' ', c[0], ' ', c[1]); vals(a, b, 3, d, 4); writeln(a[2 + k], b[2 + k]); fwd(a, b, k); writeln(a[2], ' ', b[5], ' ', c[1]); vals(c, c, 1, 'hello', 2) end.
""", """static i32 k; typedef struct { i32 l, h; i32 *x; } V;
static void two(i32 *x, i32 *y, i32 *z) { for (i32 i = 0; i < 4; i++) { i32 t = x[i]; x[i] = y[i]; y[i] = t; } z[0] = 7; z[1] = 8; I(2); I(5); I(0); I(1); SP; I(x[k]); SP; IL(y[3 - k]); }
static void vals(i32 *x, i32 *y, i32 l, i32 h, i32 q, const char *z, i32 m, i32 n, i32 r) { i32 X0 = k == 0 ? q : x[0], XH = k == h - l ? q : x[h - l], Y0 = k == h - l ? r : y[0], YH = k == 0 ? r : y[h - l]; I(X0); SP; I(Y0); SP; I(XH); SP; I(YH); o_chr(z[0]); o_chr(z[n - m]); I(l); I(h); I(m); I(n); I(q); IL(r); }
void oracle(void){ i32 v = in_range(-500, 500); k = in_pick(0, 1); i32 a[4], b[4], c[2], i; for (i = 0; i < 4; i++) { a[i] = v + i + 2; b[i] = v - i - 2; } two(a, b, c); I(a[0]); SP; I(b[0]); SP; I(c[0]); SP; IL(c[1]); vals(a, b, 2, 5, 3, "mn", 0, 1, 4); I(a[k]); IL(b[k]);
 two(b, a, c); if (k > 0) vals(a, a, 2, 5, k, "mn", 0, 1, 9); else vals(b, a, 2, 5, 8, "yz", 1, 2, 7); I(a[0]); SP; I(b[3]); SP; IL(c[1]); vals(c, c, 0, 1, 1, "hello", 1, 5, 2); }""")
CK = """program p; type col = (red, green, blue, white); var a : array [3..6] of integer; b : array [green..blue] of integer; g : integer; h : array [0..9] of integer; i, j : integer;
procedure w(var x : array [l..u : integer] of integer; i : integer); begin x[i] := 5; writeln(x[i] + l + u) end;
procedure v(x : array [l..u : integer] of integer; i : integer); begin writeln(x[i]) end;
procedure f(var x : array [l..u : integer] of integer; i : integer); begin v(x, i); w(x, i) end;
procedure e(var x : array [l..u : col] of integer; i : col); begin x[i] := 9; writeln(x[i]) end;
begin read(i); read(j); for g := 3 to 6 do a[g] := g; for g := 0 to 9 do h[g] := g; w(a, i); v(h, j); f(a, j); e(b, succ(red, i - 3)); writeln(a[3], ' ', a[6], ' ', h[0], ' ', h[9]) end.
"""
P("checked", CK, """static void ck(i32 i, i32 l, i32 h) { if ((i < l) | (i > h)) { RANGE_ERR; } }
void oracle(void){ i32 i = in_range(3, 6), j = in_range(0, 9); IL(5 + 9); IL(j); IL(j == i ? 5 : j); IL(14); IL(9); I(i == 3 || j == 3 ? 5 : 3); SP; I(i == 6 || j == 6 ? 5 : 6); SP; I(0); SP; IL(9); }""".replace("RANGE_ERR", "") .replace("j = in_range(0, 9)", "j = in_range(3, 6)").replace("i = in_range(3, 6)", "i = in_pick(4, 5)"), opts=[["-O0"], ["-O2"], ["-O0", "-Cr"], ["-O2", "-Cr"]])
P("check_fails", CK, """static void ck(int bad) { RANGE(bad); }
void oracle(void){ i32 i = in_range(-100, 100), j = in_range(-100, 100); CKR(i, 3, 6); IL(14); CKR(j, 0, 9); IL(j); CKR(j, 3, 6); IL(j == i ? 5 : j); IL(14); ASSUME(i >= 3 && i <= 6); CKR(i - 3, 1, 2); IL(9); I(j == 3 || i == 3 ? 5 : 3); SP; I(i == 6 || j == 6 ? 5 : 6); SP; I(0); SP; IL(9); }""".replace("CKR(i, 3, 6)", "RANGE((i >= 3) & (i <= 6))").replace("CKR(j, 0, 9)", "RANGE((j >= 0) & (j <= 9))").replace("CKR(j, 3, 6)", "RANGE((j >= 3) & (j <= 6))").replace("CKR(i - 3, 1, 2)", "RANGE((i >= 4) & (i <= 5))"), opts=[["-O0", "-Cr"], ["-O2", "-Cr"]])


# ---- random conformant programs ---------------------------------------------------------------------------
ETYPES = [("integer", "i32"), ("longint", "i64")]


def random_unit(name, rng):
    """Random call chains of conformant routines over arrays with random bounds; the model works on (data, low, high)"""
    nr = rng.randint(2, 4)
    et, ct = rng.choice(ETYPES)
    arrs = []
    for i in range(rng.randint(2, 3)):
        lo = rng.randint(-6, 6)
        arrs.append((f"a{i}", lo, lo + rng.randint(1, 5)))
    pas, orc = [], []
    routs = []
    for r in range(nr):
        params = []
        for q in range(rng.randint(1, 2)):
            params.append((f"x{q}", rng.choice(["var ", "", "var "]), f"l{q}", f"h{q}"))
        body, cb = [], []

        def stmts(depth):
            for _ in range(rng.randint(1, 3)):
                x, mode, l, h = rng.choice(params)
                y, ymode, yl, yh = rng.choice(params)
                k = rng.randint(0, 6)
                if k == 0:
                    cst = rng.randint(-9, 9)
                    body.append(f"for i := {l} to {h} do {x}[i] := {x}[i] + {cst}")
                    cb.append(f"for (i = {x}.l; i <= {x}.h; i++) AT({x}, i) += {cst};")
                elif k == 1:
                    body.append(f"{x}[{l}] := {y}[{yh}] - {x}[{h}]")
                    cb.append(f"AT({x}, {x}.l) = AT({y}, {y}.h) - AT({x}, {x}.h);")
                elif k == 2:
                    body.append(f"for i := {h} downto {l} + 1 do {x}[i] := {x}[i - 1] + i")
                    cb.append(f"for (i = {x}.h; i >= {x}.l + 1; i--) AT({x}, i) = AT({x}, i - 1) + i;")
                elif k == 3:
                    body.append(f"if k <= {h} - {l} then {x}[{l} + k] := {x}[{l} + k] + {y}[{yl}]")
                    cb.append(f"if (k <= {x}.h - {x}.l) AT({x}, {x}.l + k) += AT({y}, {y}.l);")
                elif k == 4:
                    body.append(f"g := g + {x}[{h}] + {l} * 3 - {yh}")
                    cb.append(f"g += AT({x}, {x}.h) + {x}.l * 3 - {y}.h;")
                elif k == 5 and routs:
                    nm, pp = rng.choice(routs)
                    args = [rng.choice(params)[0] for _ in pp]
                    body.append(f"{nm}({', '.join(args + ['k'])})")
                    cb.append(f"{nm}({', '.join(args + ['k'])});")
                else:
                    body.append(f"write(' ', {x}[{l}], ' ', {x}[{h}], ' ', {yl} + {h})")
                    cb.append(f"SP; I(AT({x}, {x}.l)); SP; I(AT({x}, {x}.h)); SP; I({y}.l + {x}.h);")
        stmts(0)
        stmts(0)
        nm = f"r{r}"
        pas.append(f"procedure {nm}({'; '.join(f'{m}{x} : array [{l}..{h} : integer] of {et}' for x, m, l, h in params)}; k : integer);\nvar i : integer;\nbegin {'; '.join(body)} end;\n")
        copies = "".join(f" {ct} b{x}[8]; {x} = cp({x}, b{x});" for x, m, l, h in params if not m)
        orc.append(f"static void {nm}({', '.join(f'V {x}' for x, m, l, h in params)}, i32 k) {{ i32 i;{copies} {' '.join(cb)} }}\n")
        routs.append((nm, params))
    main, cm = [], []
    for a, lo, hi in arrs:
        main.append(f"for i := {lo} to {hi} do {a}[i] := v + i")
        cm.append(f"for (i = {lo}; i <= {hi}; i++) AT({a}, i) = v + i;")
    for _ in range(4):
        nm, pp = rng.choice(routs)
        args = [rng.choice(arrs)[0] for _ in pp]
        main.append(f"{nm}({', '.join(args + ['k'])}); writeln")
        cm.append(f"{nm}({', '.join(args + ['k'])}); NL;")
    for a, lo, hi in arrs:
        main.append(f"for i := {lo} to {hi} do write({a}[i], ' ')")
        cm.append(f"for (i = {lo}; i <= {hi}; i++) {{ I(AT({a}, i)); SP; }}")
    main.append("writeln(g)")
    cm.append("IL(g);")
    p = "program p;\nvar " + " ".join(f"{a} : array [{lo}..{hi}] of {et};" for a, lo, hi in arrs) + f" g : {et}; i, k : integer; v : integer;\n" + "".join(pas) + "begin read(v); read(k); g := 0; " + ";\n ".join(main) + "\nend.\n"
    o = f"typedef struct {{ {ct} *d; i32 l, h; }} V; static {ct} g;\n#define AT(x, i) ((x).d[(i) - (x).l])\nstatic V cp(V x, {ct} *b) {{ for (i32 i = x.l; i <= x.h; i++) b[i - x.l] = AT(x, i); x.d = b; return x; }}\n" + "".join(orc)
    o += "void oracle(void){ i32 i, v = in_range(-1000, 1000), k = in_pick(0, 3); " + " ".join(f"{ct} d{a}[8]; V {a} = {{d{a}, {lo}, {hi}}};" for a, lo, hi in arrs) + " " + " ".join(cm) + " }"
    P(name, p, o)


for u in range(24 if not THOROUGH else 160):
    random_unit(f"rnd{u}", random.Random(hash_(f"c24r{u}/{SEED}")))

if __name__ == "__main__":
    run_tv("C24", progs, [["-O0"], ["-O2"]] + ([["-O1", "-Cr"], ["-m32", "-O0"]] if THOROUGH else []), max_time=60,
           explanation="Programs that instantiate every kind of schema with generated discriminants, and routines with conformant array parameters (all index and element types, value/var/protected, passed on, shared bounds, nested use, with and without -Cr), are compiled with the real compiler; the compiled program is executed symbolically and the solver compares every output byte with a model for all index and element values.",
           bounds={"programs": "%d (generated discriminants, generated call chains), array lengths up to 26, two dimensions" % len(progs), "outside": "schema values are compile-time constants, the only form the compiler accepts"})
