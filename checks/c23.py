"""C23: declared initial values are in place before the first statement."""
import random
from common import *
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


P("scalars", """program p;
type col = (red, green, blue); sub = 2..9 value 4; st = string[6] value 'hey'; se = set of 0..40 value [3, 17..19]; bo = boolean value true; co = col value green; ch = char value 'q';
  pn = ^integer value nil; lo = longint value 5000000000; re = real value 2.5; sc = 'a'..'k' value 'f';
var a : sub; b : st; c : se; d : bo; e : co; f : ch; g : pn; h : lo; i, i2, i3 : integer value -7; j : re; k : sc; l : longint value -3; m : real value 3; n : string value 'x'; o : col value blue; q : sub value 9; x, y : integer; t : st value 'other';
procedure loc; var a : sub; b, b2 : st; c, c2 : se; d : bo; e : co; f, f2 : ch; g : pn; h : lo; i, i2, i3 : integer value 11; l : longint value 12;
begin writeln(a, ' ', b, b2, ord(x in c), ord(x in c2), ord(d), ord(e), f, f2, ord(g = nil), h, ' ', i, i2, i3, l);
  a := 2; b := 'no'; b2 := ''; c := [x]; c2 := [1]; d := false; e := red; f := 'n'; f2 := f; new(g); h := y; i := y; i2 := y; i3 := y; l := y end;
begin read(x); read(y); writeln(a, ' ', b, ord(x in c), ord(d), ord(e), f, ord(g = nil), h, ' ', i, i2, i3, ' ', trunc(j * 4), k, l, trunc(m), n, ord(o), q, t); loc; loc; a := 3; b := 'zz'; loc end.
""", """static void loc(int in){ I(4); SP; o_txt("heyhey"); o_int(in,0); o_int(in,0); I(1); I(1); o_chr('q'); o_chr('q'); I(1); I(5000000000LL); SP; I(11); I(11); I(11); IL(12); }
void oracle(void){ i32 x = in_range(0, 40); in_i32(); int in = (x == 3) | ((x >= 17) & (x <= 19));
 I(4); SP; o_txt("hey"); o_int(in,0); I(1); I(1); o_chr('q'); I(1); I(5000000000LL); SP; I(-7); I(-7); I(-7); SP; I(10); o_chr('f'); I(-3); I(3); o_chr('x'); I(2); I(9); o_txt("other"); NL; loc(in); loc(in); loc(in); }""")
P("strings", """program p; const one = 'c'; two = 'word'; type s4 = string[4]; ca = array [1..5] of char; cz = array [0..2] of char value 'ab';
var a : string value ''; b : s4 value 'full'; c : ca value 'xyz'; d : ca value 'exact'; e : ca value 'q'; f : ca value one; g : string[9] value one; h : s4 value two; z : cz; y : cz value 'klm'; aa : array [1..2] of s4 value [1: 'a'; 2: 'bcd']; ac : array [1..2] of ca value [1: 'ab' otherwise 'cdefg']; i, j : integer; w : ca value [1: 'a'; 5: 'e' otherwise '-'];
procedure loc; var b : s4 value 'full'; c, c2 : ca value 'xyz'; z : cz; n : integer; begin writeln(length(b), b[i mod 4 + 1], ord(c[i mod 5 + 1]), c2[i mod 5 + 1], z[i mod 3]); b := 'no'; for n := 1 to 5 do begin c[n] := '?'; c2[n] := '!' end; z := 'mmm' end;
begin read(i); read(j); writeln(length(a), b, length(b), ord(c[i mod 5 + 1]), d[i mod 5 + 1], ord(e[i mod 5 + 1]), ord(f[i mod 5 + 1]), g, length(g), h, ord(z[i mod 3]), y[i mod 3], aa[j], length(aa[j]), ac[j][i mod 5 + 1], w[i mod 5 + 1]); loc; loc end.
""", """static char at(const char *s, i32 i) { return s[i]; } static i32 i;
static void loc(void) { I(4); o_chr(at("full", i % 4)); I(at("xyz  ", i % 5)); o_chr(at("xyz  ", i % 5)); o_chr(at("ab ", i % 3)); NL; }
void oracle(void){ i = in_range(0, 60); i32 j = in_pick(1, 2); I(0); o_txt("full"); I(4); I(at("xyz  ", i % 5)); o_chr(at("exact", i % 5)); I(at("q    ", i % 5)); I(at("c    ", i % 5)); o_txt("c"); I(1); o_txt("word"); I(at("ab ", i % 3)); o_chr(at("klm", i % 3));
 o_txt(j == 1 ? "a" : "bcd"); I(j == 1 ? 1 : 3); o_chr(at(j == 1 ? "ab   " : "cdefg", i % 5)); o_chr(at("a---e", i % 5)); NL; loc(); loc(); }""")
P("sets", """program p; const lo = 2; hi = 5; neg = -3; sv = [1, 4..6]; type col = (red, green, blue, white); sc = set of char value ['a'..'c', 'x']; sn = set of col value [green..white];
var a : set of 0..100 value [0, 31..33, 63, 64, 100]; b : sc; c : sn; d : set of -5..20 value [neg, lo..hi, 20]; e : set of boolean value [true]; f : set of 0..7 value []; g, g2 : set of 0..9 value sv; h : set of 10..30 value [10, 12..14]; r : record s : sc; t : set of 3..40 end; ar : array [1..3] of set of 0..7 value [2: [3, 5]; otherwise [0..1]]; x, k : integer; q : char;
procedure loc; var a : set of 0..100 value [0, 31..33, 63, 64, 100]; b : sc; d, d2 : set of -5..20 value [neg, lo..hi, 20]; begin writeln(ord(x in a), ord(q in b), ord(x - 5 in d), ord(x - 5 in d2)); a := []; b := [q]; d := []; d2 := [1..20] end;
begin read(x); read(q); read(k); writeln(ord(x in a), ord(q in b), ord(succ(red, k) in c), ord(x - 5 in d), ord(true in e), ord(false in e), ord(f = []), ord(x in g), ord(x in g2), ord(x in h), ord(q in r.s), ord(x in ar[k + 1])); loc; loc end.
""", """static i32 x, k; static unsigned char q; static int a(void) { return (x == 0) | ((x >= 31) & (x <= 33)) | (x == 63) | (x == 64) | (x == 100); } static int b(void) { return ((q >= 'a') & (q <= 'c')) | (q == 'x'); } static int d(void) { i32 y = x - 5; return (y == -3) | ((y >= 2) & (y <= 5)) | (y == 20); } static int g(void) { return (x == 1) | ((x >= 4) & (x <= 6)); }
static void loc(void) { I(a()); I(b()); I(d()); I(d()); NL; }
void oracle(void){ x = in_range(0, 120); q = in_chr(); k = in_pick(0, 2); I(a()); I(b()); I(k >= 1); I(d()); I(1); I(0); I(1); I(g()); I(g()); I((x == 10) | ((x >= 12) & (x <= 14))); I(b()); if (k == 1) I((x == 3) | (x == 5)); else I((x == 0) | (x == 1)); NL; loc(); loc(); }""")
P("arrays", """program p; type col = (red, green, blue); t = integer value 42; ar = array [1..6] of integer value [1: 10; 3..4: 20; 2, 6: 30; 5: -1]; at = array [1..4] of t; two = array [1..2, 1..3] of integer value [1: [1: 11; 2: 12; 3: 13]; 2: [1..3: 7]]; nest = array [0..1] of ar value [1: [1..6: 5]]; three = array [0..1] of two;
const n = 3; cc = ar [1..2: 4; 3..5: 5 otherwise 6];
var a : ar; b, b2 : at; c : two; d : nest; e : array [col] of integer value [red..green: n + 1; blue: -n]; f : array ['a'..'e'] of boolean value ['b', 'd'..'e': true; otherwise false]; g : array [boolean] of char value [false: 'f'; true: 't']; h : at value [2: 1]; k : array [-3..3] of longint value [-3: -30; -2..-1: 5; 3: 8000000000; otherwise 1]; m : ar value cc; o : array [1..2] of ar; i, j : integer; z : array [5..7] of integer value [otherwise 9]; w : three; y : array [1..2, boolean] of t value [1: [true: 1]];
procedure loc(x : integer); var a : ar; b, b2 : at; c : two; d : nest; h, h2 : at value [2: 1]; k : array [-3..3] of longint value [-3: -30; -2..-1: 5; 3: 8000000000; otherwise 1]; o : array [1..2] of ar; n : integer;
begin writeln(a[i], ' ', b[(i - 1) mod 4 + 1], ' ', b2[(i - 1) mod 4 + 1], ' ', c[j, (i - 1) mod 3 + 1], ' ', d[j - 1][i], ' ', h[(i - 1) mod 4 + 1], h2[(i - 1) mod 4 + 1], ' ', k[i - 3], ' ', o[j][i]);
 for n := 1 to 6 do begin a[n] := x; o[1][n] := x; o[2][n] := x; d[0][n] := x; d[1][n] := x; k[n - 3] := x end; for n := 1 to 4 do begin b[n] := x; b2[n] := x; h[n] := x; h2[n] := x end; c[1,1] := x; c[2,3] := x end;
begin read(i); read(j); writeln(a[i], ' ', b[(i - 1) mod 4 + 1], ' ', b2[(i - 1) mod 4 + 1], ' ', c[j, (i - 1) mod 3 + 1], ' ', d[j - 1][i], ' ', e[succ(red, (i - 1) mod 3)], ' ', ord(f[chr(97 + (i - 1) mod 5)]), g[false], g[true], ' ', h[(i - 1) mod 4 + 1], ' ', k[i - 3], ' ', m[i], ' ', o[j][i], ' ', cc[i], ' ', z[5 + (i mod 3)], ' ', w[j - 1][j, (i - 1) mod 3 + 1], y[j, i > 3]); loc(i); loc(i + 1); m := a; a := cc; writeln(a[i], ' ', m[i]) end.
""", """static i32 i, j; static const i32 A[6] = {10, 30, 20, 20, -1, 30}, C[2][3] = {{11, 12, 13}, {7, 7, 7}}, CC[6] = {4, 4, 5, 5, 5, 6}, E[3] = {4, 4, -3}, F[5] = {0, 1, 0, 1, 1}; static const i64 K[7] = {-30, 5, 5, 1, 1, 1, 8000000000LL};
static void com(void) { I(A[i - 1]); SP; I(42); SP; I(42); SP; I(C[j - 1][(i - 1) % 3]); SP; I(j == 2 ? 5 : A[i - 1]); SP; }
static i32 H(void) { return (i - 1) % 4 == 1 ? 1 : 42; }
static void loc(void) { com(); I(H()); I(H()); SP; I(K[i]); SP; IL(A[i - 1]); }
void oracle(void){ i = in_range(1, 6); j = in_pick(1, 2); com(); I(E[(i - 1) % 3]); SP; I(F[(i - 1) % 5]); o_chr('f'); o_chr('t'); SP; I(H()); SP; I(K[i]); SP; I(CC[i - 1]); SP; I(A[i - 1]); SP; I(CC[i - 1]); SP; I(9); SP; I(C[j - 1][(i - 1) % 3]); I(((j == 1) & (i > 3)) ? 1 : 42); NL; loc(); loc(); I(CC[i - 1]); SP; IL(A[i - 1]); }""")
Z = dict(global_zero=1)
P("records", """program p; type col = (red, green, blue); st = string[6] value 'dflt'; co = col value green; rr = record a, b : integer value 6; c : st; d : array [1..2] of co; e : real value 2.5; z : char end; r2 = record x : rr; y : 2..9 value 7 end value [x: [a: 1; c: 'zz'; z: 'x']; y: 3]; r3 = record x : rr; y : integer value 8 end; rv = record k : integer value 4; case b : boolean of true : (i : integer); false : (c : char) end;
const cr = rr [a: 9; b: 8; c: 'abc'; d: [1: red; 2: blue]; e: 1.5; z: 'k'];
var a : rr; b : r2; c : r3; d, d2 : rr value [z: 'p'; a, b: 2]; e : rr value cr; f : array [0..1] of rr; g : array [0..1] of r3 value [0: [y: 1]]; h : rv; i : integer; p : ^rr; p2 : ^r3; l : record m : integer; n : rr end value [m: 12]; k : array [0..1] of record q : 0..9 value 5; s : set of 0..7 value [2] end;
procedure show(r : rr); begin writeln(r.a, ' ', r.b, ' ', r.c, ' ', ord(r.d[i + 1]), ' ', trunc(r.e * 4)) end;
procedure loc(n : integer); var a : rr; b : r2; c : r3; d, d2 : rr value [a, b: 2]; f : array [0..1] of rr; g : array [0..1] of r3 value [0: [y: 1]]; l : record m : integer; n : rr end value [m: 12]; h : rv;
begin show(a); show(b.x); show(c.x); show(d); show(d2); show(f[i]); show(g[i].x); show(l.n); writeln(b.y, c.y, g[i].y, l.m, h.k); a.a := n; a.c := 'no'; a.d[1] := blue; b.x.a := n; b.y := 2; c.x.e := 0.5; c.y := n; d := a; d2 := a; f[0] := a; f[1] := a; g[0].x := a; g[1].y := n; l.n := a; l.m := n; h.k := n end;
begin read(i); show(a); show(b.x); show(c.x); show(d); show(d2); show(e); show(f[i]); show(g[i].x); show(l.n); writeln(b.y, c.y, g[i].y, l.m, h.k, k[i].q, ord(2 in k[i].s), b.x.z, d.z, d2.z, e.z); loc(i); loc(i + 40); new(p); show(p^); new(p2); show(p2^.x); writeln(p2^.y); a := cr; show(a); writeln(cr.a, cr.c, ord(cr.d[i + 1])) end.
""", """static i32 i; static void sh(i32 a, i32 b, const char *c, i32 d, i32 e) { I(a); SP; I(b); SP; o_txt(c); SP; I(d); SP; IL(e); }
static void d(void) { sh(6, 6, "dflt", 1, 10); } static void cr(void) { sh(9, 8, "abc", i ? 2 : 0, 6); }
static void com(int g) { d(); sh(1, 6, "zz", 1, 10); d(); sh(2, 2, "dflt", 1, 10); sh(2, 2, "dflt", 1, 10); if (g) cr(); d(); d(); d(); I(3); I(8); I(i ? 8 : 1); I(12); I(4); }
void oracle(void){ i = in_pick(0, 1); com(1); I(5); I(1); o_txt("xppk"); NL; com(0); NL; com(0); NL; d(); d(); IL(8); cr(); I(9); o_txt("abc"); IL(i ? 2 : 0); }""")
P("consts", """program p; type row = array [0..3] of integer; mat = array [1..3] of row; pt = record x, y : integer; n : string[5] end; pts = array [1..3] of pt; ln = record a, b : pt end;
const zero = row [otherwise 0]; tab = row [0: 5; 1..2: -7; 3: 100]; m = mat [1: [0: 1; 1: 2; 2: 3; 3: 4]; 2: [otherwise 9]; 3: [0: 0; 1..3: 8]]; org = pt [x: 0; y: 0; n: 'orig']; ps = pts [1: [x: 1; y: 2; n: 'a']; 2: [x, y: 5; n: 'bb']; 3: [x: -1; y: -2; n: 'ccccc']]; l = ln [a: [x: 3; y: 4; n: 'p']; b: [x: 30; y: 40; n: 'qq']];
var i, j : integer; r : row; v : pt; w : mat;
procedure t(q : row; z : pt); begin writeln(q[j], ' ', z.x, z.n) end;
function f(k : integer) : integer; const loc = row [0: 2; 1: 4; 2: 6; 3: 8]; begin f := loc[k] + tab[k] end;
begin read(i); read(j); writeln(tab[j], ' ', zero[j], ' ', m[i][j], ' ', org.x, org.n, ' ', ps[i].x, ' ', ps[i].n, ' ', l.b.y, l.a.n, ' ', f(j)); r := tab; r[j] := r[j] + 1; writeln(r[j], ' ', tab[j]); v := ps[i]; v.x := v.x + 10; writeln(v.x, v.n, ' ', ps[i].x); t(tab, org); t(m[i], ps[i]); w := m; w[i][j] := 77; writeln(w[i][j], ' ', m[i][j]); with l.b do writeln(x, y, n) end.
""", """static const i32 T[4] = {5, -7, -7, 100}, M[3][4] = {{1, 2, 3, 4}, {9, 9, 9, 9}, {0, 8, 8, 8}}, X[3] = {1, 5, -1};
void oracle(void){ i32 i = in_pick(1, 3), j = in_range(0, 3); const char *n = i == 1 ? "a" : i == 2 ? "bb" : "ccccc"; i32 x = X[i - 1], f = 2 * j + 2 + T[j]; I(T[j]); SP; I(0); SP; I(M[i - 1][j]); SP; I(0); o_txt("orig"); SP; I(x); SP; o_txt(n); SP; I(40); o_txt("p"); SP; IL(f); I(T[j] + 1); SP; IL(T[j]); I(x + 10); o_txt(n); SP; IL(x); I(T[j]); SP; I(0); o_txt("orig"); NL; I(M[i - 1][j]); SP; I(x); o_txt(n); NL; I(77); SP; IL(M[i - 1][j]); I(30); I(40); o_txt("qq"); NL; }""")
P("objects", """program p; type t = integer value 5; ob = object n : t; s : string[5]; k : integer value 9; function get : integer; virtual; end; oc = object(ob) m : t; a : array [1..2] of t; function get : integer; override; end; rec = record o : oc; x : t end;
var a : ob; b : oc; c : array [0..1] of oc; d : rec; i : integer; q : ^oc;
function ob.get : integer; begin get := n + k end;
function oc.get : integer; begin get := n * 100 + m * 10 + k + a[1] + a[2] end;
procedure loc; var a : ob; b : oc; d : rec; begin writeln(a.n, a.k, a.get, ' ', b.get, ' ', d.o.get, d.x); a.n := i; a.k := i; b.m := i; b.a[1] := i; d.o.k := i; d.x := i end;
begin read(i); writeln(a.get, ' ', b.get, ' ', c[i].get, ' ', d.o.get, d.x); loc; loc; new(q); writeln(q^.get); a.n := 6; writeln(a.get) end.
""", """static void loc(void) { I(5); I(9); I(14); SP; I(569); SP; I(569); IL(5); } void oracle(void){ in_range(0, 1); I(14); SP; I(569); SP; I(569); SP; I(569); IL(5); loc(); loc(); IL(569); IL(15); }""")
P("nestedproc", """program p; type t = integer value 3; ar = array [1..3] of t; var g : integer;
procedure a(n : integer); var x, y : t; v : ar value [2: n0]; k : integer;
 procedure b(m : integer); var x, z : t; w : ar; begin x := x + m; y := y + 1; z := z + x; w[m] := w[m] + z; writeln(x, ' ', y, ' ', z, ' ', w[1], ' ', w[2], ' ', w[3], ' ', v[m]); v[m] := v[m] + 1 end;
begin b(1); b(2); b(2); x := x + y; if n > 0 then a(n - 1); writeln(x, ' ', y, ' ', v[2]) end;
function fact(n : integer) : integer; var r : integer value 1; begin if n > 1 then r := n * fact(n - 1); fact := r end;
begin read(g); a(g); writeln(fact(g + 2)); writeln(fact(3)) end.
""".replace("n0", "8"), """static void a(i32 n) { i32 x = 3, y = 3, v[4] = {0, 3, 8, 3}; for (int k = 0; k < 3; k++) { i32 m = k ? 2 : 1; i32 bx = 3 + m, z, w[4] = {0, 3, 3, 3}; y++; z = 3 + bx; w[m] += z; I(bx); SP; I(y); SP; I(z); SP; I(w[1]); SP; I(w[2]); SP; I(w[3]); SP; IL(v[m]); v[m]++; } x += y; if (n > 0) a(n - 1); I(x); SP; I(y); SP; IL(v[2]); }
void oracle(void){ i32 g = in_pick(0, 2); a(g); IL(g == 0 ? 2 : g == 1 ? 6 : 24); IL(6); }""")
P("default_", """program p; type t = integer value 5; r = record a : t; b : char value 'z' end; var x : integer; y : t; v : r;
begin read(x); y := x; writeln(y); y := default(t) + x; writeln(y); v.a := x; v.b := 'q'; writeln(v.a, v.b); v := default(r); writeln(v.a, v.b); y := default(y); writeln(y) end.
""", "void oracle(void){ i32 x = in_i32(); IL(x); IL(wadd(x, 5)); I(x); o_chr('q'); NL; I(5); o_chr('z'); NL; IL(5); }")


class Gen:
    """random declarations of types, with the value every component starts with"""

    def __init__(self, k):
        self.r = random.Random(SEED * 104729 + k)
        self.n = 0
        self.decls = []
        self.named = []
        self.inputs = {}

    # a type is (kind, text, init, info), a value is a Python value or None (not defined)
    def simple(self):
        r = self.r
        k = r.choice(["int", "int", "sub", "long", "char", "bool", "enum", "str", "ca", "set", "real"])
        info = None
        if k == "int":
            txt = "integer"
        elif k == "sub":
            lo = r.randint(-5, 5)
            info = (lo, lo + r.randint(3, 60))
            txt = "%d..%d" % info
        elif k == "long":
            txt = "longint"
        elif k == "char":
            txt = "char"
        elif k == "bool":
            txt = "boolean"
        elif k == "enum":
            txt = "col"
        elif k == "str":
            info = r.randint(2, 7)
            txt = "string[%d]" % info
        elif k == "ca":
            info = r.randint(2, 5)
            txt = "array [1..%d] of char" % info
        elif k == "set":
            lo = r.randint(-2, 8)
            info = (lo, lo + r.choice([8, 33, 64, 70]) - 1)
            txt = "set of %d..%d" % info
        else:
            txt = "real"
        return [k, txt, None, info]

    def value(self, t):
        """(text, value) of a random initializer for the type"""
        r = self.r
        k, txt, init, info = t
        if k == "int":
            v = r.choice([r.randint(-99, 99), r.randint(-2**31, 2**31 - 1)])
            return "%d" % v, v
        if k == "sub":
            v = r.choice([info[0], info[1], r.randint(*info)])
            return "%d" % v, v
        if k == "long":
            v = r.choice([r.randint(-99, 99), r.randint(-2**62, 2**62)])
            return "%d" % v, v
        if k == "char":
            v = r.choice("abcXYZ09 .")
            return "'%s'" % v, v
        if k == "bool":
            v = r.randint(0, 1)
            return ["false", "true"][v], v
        if k == "enum":
            v = r.randint(0, 3)
            return ["red", "green", "blue", "white"][v], v
        if k in ("str", "ca"):
            v = "".join(r.choice("abcdeXYZ") for i in range(r.randint(1 if k == "ca" else 0, info)))
            return "'%s'" % v, v if k == "str" else v.ljust(info)
        if k == "set":
            els, txt = set(), []
            for i in range(r.randint(0, 3)):
                a = r.randint(*info)
                b = r.choice([a, r.randint(a, info[1])])
                txt.append("%d" % a if a == b else "%d..%d" % (a, b))
                els |= set(range(a, b + 1))
            return "[%s]" % ", ".join(txt), frozenset(els)
        if k == "real":
            v = r.randint(-40, 40)
            return "%.2f" % (v / 4.0), v
        if k == "arr":
            ix, n, el = info
            vals, txt = [self.default(el) for i in range(n)], []
            idx = list(range(n))
            groups = []
            while idx:
                a = idx.pop(0)
                z = r.random()
                if z < 0.2:
                    continue
                if z < 0.5:
                    b = a
                    while idx and idx[0] == b + 1 and r.random() < 0.7:
                        b = idx.pop(0)
                    groups.append([(a, b)])
                elif groups and z < 0.7:
                    r.choice(groups).append((a, a))
                else:
                    groups.append([(a, a)])
            r.shuffle(groups)
            seen = set()
            for g in groups:
                tx, v = self.value(el)
                lst = ", ".join(ix(a) if a == b else "%s..%s" % (ix(a), ix(b)) for a, b in g)
                txt.append("%s: %s" % (lst, tx))
                for a, b in g:
                    for i in range(a, b + 1):
                        vals[i] = v
                        seen.add(i)
            body = "; ".join(txt)
            if len(seen) < n and (r.random() < 0.6 or not groups):
                tx, v = self.value(el)
                body += (" " if body else "") + "otherwise %s" % tx
                for i in range(n):
                    if i not in seen:
                        vals[i] = v
            return "[%s]" % body, tuple(vals)
        if k == "rec":
            vals = [self.default(ft) for fn, ft in info]
            txt, left = [], list(range(len(info)))
            r.shuffle(left)
            keep = left[:r.randint(1, len(left))]
            while keep:
                a = keep.pop(0)
                same = [b for b in keep if info[b][1] is info[a][1]]
                tx, v = self.value(info[a][1])
                names = [a]
                if same and r.random() < 0.6:
                    names.append(same[0])
                    keep.remove(same[0])
                for i in names:
                    vals[i] = v
                txt.append("%s: %s" % (", ".join(info[i][0] for i in names), tx))
            return "[%s]" % "; ".join(txt), tuple(vals)
        raise Exception(k)

    def default(self, t):
        if t[2] is not None:
            return t[2]
        if t[0] == "arr":
            return tuple(self.default(t[3][2]) for i in range(t[3][1]))
        if t[0] == "rec":
            return tuple(self.default(ft) for fn, ft in t[3])
        return None

    def name(self, t):
        """declare the type, maybe with an initial value"""
        self.n += 1
        nm = "t%d" % self.n
        txt = t[1]
        init = t[2]
        if self.r.random() < 0.5:
            tx, init = self.value(t)
            txt += " value " + tx
        self.decls.append("%s = %s" % (nm, txt))
        nt = [t[0], nm, init, t[3]]
        self.named.append(nt)
        return nt

    def compound(self, depth):
        r = self.r
        if r.random() < 0.5:
            z = r.randint(0, 4)
            n = r.randint(2, 5)
            if z == 0:
                n, ixt, ix, sel = 4, "col", lambda i: ["red", "green", "blue", "white"][i], "succ(red, %s)"
            elif z == 1:
                n, ixt, ix, sel = 2, "boolean", lambda i: ["false", "true"][i], "(%s > 0)"
            elif z == 2:
                ixt, ix, sel = "'c'..'%s'" % chr(98 + n), lambda i: "'%s'" % chr(99 + i), "chr(99 + %s)"
            else:
                lo = r.randint(-4, 4)
                ixt, ix, sel = "%d..%d" % (lo, lo + n - 1), lambda i: "%d" % (lo + i), "%%s + (%d)" % lo
            el = self.elem(depth)
            t = ["arr", "array [%s] of %s" % (ixt, el[1]), None, (ix, n, el)]
            t.append(sel)
            self.sels[id(t[3])] = sel
            return t[:4]
        fs, txt = [], []
        for i in range(r.randint(2, 4)):
            ft = self.elem(depth)
            if r.random() < 0.3:
                tx, v = self.value(ft)
                body = "%s value %s" % (ft[1], tx)
                ft = [ft[0], ft[1], v, ft[3]]
            else:
                body = ft[1]
            names = ["f%d%s" % (i, "ab"[j]) for j in range(r.choice([1, 1, 2]))]
            fs += [(nm, ft) for nm in names]
            txt.append("%s : %s" % (", ".join(names), body))
        return ["rec", "record %s end" % "; ".join(txt), None, fs]

    sels = {}

    def elem(self, depth):
        z = self.r.random()
        if self.named and z < 0.35:
            return self.r.choice(self.named)
        if depth > 0 and z < 0.6:
            return self.name(self.compound(depth - 1))
        t = self.simple()
        return self.name(t) if t[0] in ("enum",) or self.r.random() < 0.6 else t

    def leaves(self, ref, t, vals, local, out, depth=0):
        """statements that write every component that has a value, arrays through an index from the input;
        vals: list of (C condition, value)"""
        k = t[0]
        if any(v is None for c, v in vals):
            if k == "arr":
                vals = [(c, (None,) * t[3][1] if v is None else v) for c, v in vals]
            elif k == "rec":
                vals = [(c, (None,) * len(t[3]) if v is None else v) for c, v in vals]
            elif local or any(v is not None for c, v in vals):
                return
            else:
                return
        if k == "arr":
            ix, n, el = t[3]
            iv = self.inp("i%d" % depth, n)
            if depth > 2:
                return
            self.leaves("%s[%s]" % (ref, self.sels[id(t[3])] % iv), el,
                        [("%s & (%s == %d)" % (c, iv, j), v[j]) for c, v in vals for j in range(n)], local, out, depth + 1)
            return
        if k == "rec":
            for j, (fn, ft) in enumerate(t[3]):
                self.leaves(ref + "." + fn, ft, [(c, v[j]) for c, v in vals], local, out, depth)
            return

        def pick(f, typ="i64"):
            groups = {}
            for c, v in vals:
                groups.setdefault(f(v), []).append(c)
            items = sorted(groups.items(), key=lambda kv: -len(kv[1]))
            e = str(items[0][0])
            for val, cs in items[1:]:
                e = "((%s) ? (%s)%s : %s)" % (" | ".join("(%s)" % c for c in cs), typ, val, e)
            return e
        lit = lambda v: "(-9223372036854775807LL-1)" if v == -2**63 else "%dLL" % v
        if k in ("int", "sub", "long"):
            out.append(("writeln(%s)" % ref, "IL(%s);" % pick(lit)))
        elif k == "char":
            out.append(("writeln(%s)" % ref, "o_chr(%s); NL;" % pick(lambda v: ord(v), "unsigned char")))
        elif k in ("bool", "enum"):
            out.append(("writeln(ord(%s))" % ref, "IL(%s);" % pick(lit)))
        elif k == "real":
            out.append(("writeln(trunc(%s * 4))" % ref, "IL(%s);" % pick(lit)))
        elif k == "str":
            # length and the character at an index from the input
            out.append(("writeln(length(%s))" % ref, "IL(%s);" % pick(lambda v: len(v))))
            ix = self.inp("x", 7)
            out.append(("if %s < length(%s) then writeln(%s[%s + 1])" % (ix, ref, ref, ix),
                        "{ const char *s = %s; int n = %s; if (%s < n) { o_chr(s[%s]); NL; } }" % (pick(lambda v: '"%s"' % v, "const char *"), pick(lambda v: len(v)), ix, ix)))
        elif k == "ca":
            ix = self.inp("x", t[3])
            out.append(("writeln(%s[%s + 1])" % (ref, ix), "{ const char *s = %s; o_chr(s[%s]); NL; }" % (pick(lambda v: '"%s"' % v, "const char *"), ix)))
        elif k == "set":
            lo, hi = t[3]
            n = hi - lo + 1

            def member(v):
                s = sorted(v)
                rs = []
                for x in s:
                    if rs and rs[-1][1] == x - 1:
                        rs[-1][1] = x
                    else:
                        rs.append([x, x])
                return "(" + " | ".join("((y >= %d) & (y <= %d))" % tuple(q) for q in rs) + ")" if rs else "0"
            ix = self.inp("e", n)
            out.append(("writeln(ord(%s + (%d) in %s))" % (ix, lo, ref), "{ i32 y = %s + (%d); IL(%s); }" % (ix, lo, pick(member))))

    def inp(self, k, n):
        """a variable with a value 0..n-1 from the input"""
        self.inputs.setdefault("%sn%d" % (k, n), n)
        return "%sn%d" % (k, n)

    def scramble(self, ref, t, out, depth=0):
        k = t[0]
        if k == "rec":
            fn, ft = self.r.choice(t[3])
            for fn, ft in t[3]:
                self.scramble(ref + "." + fn, ft, out, depth)
        elif k == "arr":
            if depth < 2:
                self.scramble("%s[%s]" % (ref, self.sels[id(t[3])] % self.inp("i0", t[3][1])), t[3][2], out, depth + 1)
        else:
            v = self.value(t)[0]
            while k == "ca" and len(v) < 4:
                v = self.value(t)[0]
            out.append("%s := %s" % (ref, v))

    def program(self):
        r = self.r
        ts = [self.name(self.compound(2)) for i in range(2)] + [self.name(self.simple())]
        gl, lo = [], []
        for scope, n in ((gl, 4), (lo, 4)):
            for i in range(n):
                t = r.choice(ts + self.named)
                names = ["%s%d%s" % ("g" if scope is gl else "l", i, "xyz"[j]) for j in range(r.choice([1, 1, 2, 3]))]
                txt, v = t[1], self.default(t)
                if r.random() < 0.6:
                    tx, v = self.value(t)
                    txt += " value " + tx
                scope.append((names, t, txt, v))
        outs = []
        for scope in (gl, lo):
            o = []
            for names, t, txt, v in scope:
                for nm in names:
                    self.leaves(nm, t, [("1", v)], scope is lo, o)
            outs.append(o)
        scr = []
        for names, t, txt, v in lo:
            self.scramble(r.choice(names), t, scr)
        hp, ho = [], []
        for i, t in enumerate(r.sample(self.named, min(2, len(self.named)))):
            self.leaves("p%d^" % i, t, [("1", self.default(t))], True, ho)
            hp.append("p%d : ^%s;" % (i, t[1]))
        new = ["new(p%d)" % i for i in range(len(hp))]
        ins = sorted(self.inputs) or ["dummy"]
        self.inputs.setdefault("dummy", 1)
        body = lambda o: ";\n".join(a for a, b in o) if o else "writeln"
        cb = lambda o: "\n".join(b for a, b in o) if o else "NL;"
        pas = "program p; type col = (red, green, blue, white);\n%s;\nvar %s %s %s : integer;\nprocedure loc; var %s\nbegin %s end;\nbegin %s\n%s;\nloc; loc;\n%s end.\n" % (
            ";\n".join(self.decls), "\n".join("%s : %s;" % (", ".join(n), x) for n, t, x, v in gl), " ".join(hp), ", ".join(ins),
            "\n".join("%s : %s;" % (", ".join(n), x) for n, t, x, v in lo),
            ";\n".join([body(outs[1])] + scr), " ".join("read(%s);" % x for x in ins), body(outs[0]), ";\n".join(new + [body(ho)]))
        orc = "static i32 %s;\nstatic void loc(void) { %s }\nvoid oracle(void){ %s\n%s loc(); loc(); %s }" % (
            ", ".join(ins), cb(outs[1]), " ".join("%s = in_range(0, %d);" % (x, self.inputs[x] - 1) for x in ins), cb(outs[0]), cb(ho))
        return pas, orc


for k in range(150 if THOROUGH else 50):
    P("decl_%d" % k, *Gen(k).program())

if __name__ == "__main__":
    run_tv("C23", progs, [["-O0"], ["-O2"]] + ([["-O1", "-m32"]] if THOROUGH else []), max_time=60,
           bounds={"programs": "%d families of declarations (%d of them random: arrays, records and scalars nested to depth 3), every component observed through symbolic indices, globals, two activations of locals, variables made by new" % (len(progs), len([p for p in progs if p.name.startswith("decl_")]))},
           explanation="the compiled program is executed symbolically from its first instruction; what it writes of every variable (index, set element and character position symbolic) is compared with the declared values")
