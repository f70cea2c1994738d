"""C07: strings."""
from common import *

progs = []
PRE = r"""
typedef struct { unsigned char b[260]; int n; } S;
static inline void rd(S *s, int max) { s->n = in_str(s->b, max); }
static inline S cat(const S *a, const S *b) { S r; memset(r.b, 0, 1); r.n = 0; for (int i = 0; i < a->n; i++) r.b[r.n++] = a->b[i]; for (int i = 0; i < b->n; i++) r.b[r.n++] = b->b[i]; return r; }
static inline S lit(const char *t) { S r; r.n = 0; while (*t) r.b[r.n++] = *t++; return r; }
static inline S ch(int c) { S r; r.n = 1; r.b[0] = c; return r; }
static inline S sub(const S *a, int i, int n) { S r; r.n = 0; for (int k = i; k < i + n && k <= a->n; k++) r.b[r.n++] = a->b[k - 1]; return r; }
/* -1, 0, 1 without a fork */
static inline int cmp(const S *a, const S *b) { int m = a->n < b->n ? a->n : b->n, r = (a->n > b->n) - (a->n < b->n); for (int i = m; i-- > 0;) r = (a->b[i] == b->b[i]) ? r : (a->b[i] > b->b[i]) - (a->b[i] < b->b[i]); return r; }
static inline int idx(const S *a, const S *p) { int r = 0; for (int i = a->n - p->n; i >= 0; i--) { int e = 1; for (int k = 0; k < p->n; k++) e &= a->b[i + k] == p->b[k]; r = e ? i + 1 : r; } return r; }
static inline void W(const S *s) { o_int(s->n, 0); SP; o_mem(s->b, s->n); NL; }
static inline void B(int x) { o_int(!!x, 1); }
"""
W1 = """procedure w(s : string); begin writeln(length(s), ' ', s) end;
procedure b(x : boolean); begin write(ord(x):1) end;
"""


def T(name, decl, body, orc, **kw):
    progs.append(Prog(name, "program p; type str4 = string[4]; str8 = string[8]; str = string;\n" + W1 + decl + "\nbegin " + body + " end.\n", PRE + "void oracle(void){ " + orc + " }", **kw))


# ---- assignment: contents, length, independence, neighbours ---------------------------------------------------------------
T("assign", "var g1 : integer; s : string; g2 : integer; t : string; g3 : integer;", "g1 := 1; g2 := 2; g3 := 3; read(s); t := s; w(t); s := 'other'; w(t); w(s); t := ''; w(t); s := t; w(s); writeln(g1, g2, g3)",
  'S s; rd(&s, 5); W(&s); W(&s); S o = lit("other"); W(&o); S e = lit(""); W(&e); W(&e); I(1); I(2); IL(3);')
T("assign_short", "var g1 : integer; a : str4; g2 : integer; b1 : str8; g3 : integer; c : char;", "g1 := 1; g2 := 2; g3 := 3; a := 'abcd'; b1 := 'abcdefgh'; read(a); w(a); b1 := a; w(b1); a := b1; w(a); read(c); a := c; w(a); b1 := c; w(b1); a := 'wxyz'; w(a); writeln(g1, ' ', g2, ' ', g3)",
  'S s; rd(&s, 4); W(&s); W(&s); W(&s); int k = in_chr(); S c = ch(k); W(&c); W(&c); S x = lit("wxyz"); W(&x); I(1); SP; I(2); SP; IL(3);')
T("assign_places", "type r = record n : integer; s : str4; m : integer; t : string end; var x, y : r; a : array [1..3] of str4; p : ^r; q : ^string; i : integer; s : string;",
  "x.n := 7; x.m := 8; x.s := 'zz'; x.t := 'tt'; read(s); x.s := s; x.t := s + 'k'; y := x; x.s := 'n'; w(y.s); w(y.t); w(x.s); writeln(x.n, ' ', x.m, ' ', y.n, ' ', y.m); for i := 1 to 3 do a[i] := 'c'; read(i); a[i] := s; for i := 1 to 3 do w(a[i]); new(p); p^ := y; p^.s := a[2]; w(p^.s); w(p^.t); writeln(p^.m); new(q); q^ := s + s; w(q^)",
  'S s; rd(&s, 4); S k = lit("k"), sk = cat(&s, &k), n = lit("n"), c = lit("c"); W(&s); W(&sk); W(&n); I(7); SP; I(8); SP; I(7); SP; IL(8); int i = in_pick(1, 3); for (int j = 1; j <= 3; j++) W(j == i ? &s : &c); W(i == 2 ? &s : &c); W(&sk); IL(8); S d = cat(&s, &s); W(&d);')
T("swap", "var s, t, u : string; a, c : str4;", "read(s); read(t); u := s; s := t; t := u; w(s); w(t); u := 'x'; w(t); read(a); c := a; a := ''; w(c); w(a)",
  'S s, t; rd(&s, 3); rd(&t, 3); W(&t); W(&s); W(&s); S a; rd(&a, 4); W(&a); S e = lit(""); W(&e);')
# ---- concatenation ----------------------------------------------------------------------------------------------------------
T("concat", "var s, t, u : string; c, d : char;", "read(s); read(t); read(c); read(d); u := s + t; w(u); w(s); w(t); w(s + c); w(c + s); w(c + d); w('ab' + s); w(s + 'ab'); w(c + 'xy'); w('x' + c); w(s + t + s); w(s + (t + c)); s := s + s; w(s); s := s + c; w(s); t := d + t; w(t)",
  'S s, t; rd(&s, 2); rd(&t, 2); int cc = in_chr(); S c = ch(cc); int dd = in_chr(); S d = ch(dd); S ab = lit("ab"), xy = lit("xy"), x = lit("x"), r; r = cat(&s, &t); W(&r); W(&s); W(&t); r = cat(&s, &c); W(&r); r = cat(&c, &s); W(&r); r = cat(&c, &d); W(&r); r = cat(&ab, &s); W(&r); r = cat(&s, &ab); W(&r); r = cat(&c, &xy); W(&r); r = cat(&x, &c); W(&r); r = cat(&s, &t); r = cat(&r, &s); W(&r); r = cat(&t, &c); r = cat(&s, &r); W(&r); s = cat(&s, &s); W(&s); s = cat(&s, &c); W(&s); t = cat(&d, &t); W(&t);')
T("concat_short", "var g1 : integer; a, c : str4; g2 : integer; e : str8;", "g1 := 1; g2 := 2; read(a); read(c); e := a + c; w(e); w(a); w(c); e := c + a; w(e); e := a + '-' + c; w(e); writeln(g1, g2)",
  'S a, c; rd(&a, 3); rd(&c, 4); S r = cat(&a, &c); W(&r); W(&a); W(&c); r = cat(&c, &a); W(&r); S m = lit("-"); r = cat(&a, &m); r = cat(&r, &c); W(&r); I(1); IL(2);')
T("concat_limit", "var g1 : integer; s : string; g2 : integer; t, u : string; g3, i : integer;", "g1 := 1; g2 := 2; g3 := 3; s := ''; for i := 1 to 25 do s := s + 'abcdefghij'; read(t); u := s + t; writeln(length(u)); for i := 249 to length(u) do write(u[i]); writeln; writeln(length(s)); s := s + s; writeln(length(s), s[255], s[251], s[1]); u := t + s; writeln(length(u), u[255]); writeln(g1, g2, g3)",
  'S t; rd(&t, 6); int n = t.n > 5 ? 5 : t.n; IL(250 + n); o_txt("ij"); o_mem(t.b, n); NL; IL(250); I(255); o_txt("eaa"); NL; I(255); o_chr("abcdefghij"[(254 - t.n) % 10]); NL; I(1); I(2); IL(3);')
# ---- comparison ------------------------------------------------------------------------------------------------------------
OPS = ["=", "<>", "<", "<=", ">", ">="]
FUN = ["eq", "ne", "lt", "le", "gt", "ge"]
CO = "int k = cmp(&x, &y); B(k == 0); B(k != 0); B(k < 0); B(k <= 0); B(k > 0); B(k >= 0); NL;"


def cmps(l, r, ops=OPS):
    return "; ".join("b(%s %s %s)" % (l, o, r) for o in ops) + "; writeln; "


T("cmp", "var s, t : string;", "read(s); read(t); " + cmps("s", "t"), "S x, y; rd(&x, 3); rd(&y, 3); " + CO)
T("cmp_self", "var s, t : string; a : str4;", "read(s); t := s; " + cmps("s", "t") + "a := s; " + cmps("a", "t") + "t := t + 'x'; " + cmps("s", "t"),
  "S s; rd(&s, 4); S x = s, y = s; { " + CO + " } { " + CO + ' } S l = lit("x"); y = cat(&y, &l); { ' + CO + " }")
T("cmp_lit", "var s : string; a : str4;", "read(s); " + cmps("s", "'ab'") + cmps("'ab'", "s") + cmps("s", "''") + "read(a); " + cmps("a", "'wxyz'"),
  'S s; rd(&s, 3); { S x = s, y = lit("ab"); ' + CO + ' } { S x = lit("ab"), y = s; ' + CO + ' } { S x = s, y = lit(""); ' + CO + ' } S a; rd(&a, 4); { S x = a, y = lit("wxyz"); ' + CO + " }")
T("cmp_char", "var s : string; c : char;", "read(s); read(c); " + cmps("s", "c") + cmps("c", "s") + cmps("s", "'q'"),
  "S s; rd(&s, 2); int cc = in_chr(); { S x = s, y = ch(cc); " + CO + " } { S x = ch(cc), y = s; " + CO + " } { S x = s, y = ch('q'); " + CO + " }")
T("cmp_mixed", "var a : str4; e : str8; s : string;", "read(a); read(e); " + cmps("a", "e") + cmps("e", "a") + "s := a; " + cmps("a + e", "e + a") + cmps("s", "a"),
  "S a, e; rd(&a, 2); rd(&e, 2); { S x = a, y = e; " + CO + " } { S x = e, y = a; " + CO + " } { S x = cat(&a, &e), y = cat(&e, &a); " + CO + " } { S x = a, y = a; " + CO + " }")
T("cmp_fun", "var s, t : string;", "read(s); read(t); " + "; ".join("b(%s(s, t))" % f for f in FUN) + "; writeln; " + "; ".join("b(%s(s, 'm'))" % f for f in FUN) + "; writeln",
  "S s, y; rd(&s, 2); rd(&y, 2); { S x = s; " + CO + " } { S x = s, y = lit(\"m\"); " + CO + " }")
T("cmp_if", "var s, t : string; n : integer;", "read(s); read(t); n := 0; if s = t then n := 1 else if s < t then n := 2 else n := 3; writeln(n); while (s <> t) and (n < 10) do begin t := s; n := n + 10 end; writeln(n); repeat n := n + 1 until s >= t; writeln(n)",
  "S s, t; rd(&s, 2); rd(&t, 2); int k = cmp(&s, &t); int n = k == 0 ? 1 : k < 0 ? 2 : 3; IL(n); n = k ? n + 10 : n; IL(n); IL(n + 1);")
# ---- element access ------------------------------------------------------------------------------------------------------------
T("index", "var g1 : integer; s : string; g2 : integer; i : integer; c : char; t : string;", "g1 := 1; g2 := 2; read(s); t := s; if s <> '' then begin read(i); writeln(ord(s[i])); read(c); s[i] := c; w(s); w(t); if s[i] = 'a' then write('yes') else write('no'); writeln(ord(s[i] < 'm'):1); inc(s[1]); writeln(ord(s[1])) end; writeln(g1, g2)",
  'S s; rd(&s, 4); if (s.n) { int i = in_range(1, 4); ASSUME(i <= s.n); S t = s; int v = 0; for (int j = 1; j <= s.n; j++) v = j == i ? s.b[j - 1] : v; IL(v); int c = in_chr(); for (int j = 1; j <= s.n; j++) s.b[j - 1] = j == i ? c : s.b[j - 1]; W(&s); W(&t); if (c == \'a\') o_txt("yes"); else o_txt("no"); B(c < \'m\'); NL; ASSUME(s.b[0] < 255); IL(s.b[0] + 1); } I(1); IL(2);')
T("index_short", "type r = record g : char; a : str4; h : char end; var x : r; i, k : integer; c : char; ar : array [2..4] of str4;", "x.g := 'g'; x.h := 'h'; x.a := 'abcd'; read(i); read(c); x.a[i] := c; w(x.a); write(x.g, x.h); writeln; for k := 2 to 4 do ar[k] := 'pqrs'; read(k); ar[k][i] := c; for k := 2 to 4 do w(ar[k])",
  'int i = in_range(1, 4), c = in_chr(); S a = lit("abcd"); for (int j = 1; j <= 4; j++) a.b[j - 1] = j == i ? c : a.b[j - 1]; W(&a); o_txt("gh"); NL; int k = in_range(2, 4); for (int q = 2; q <= 4; q++) { S z = lit("pqrs"); for (int j = 1; j <= 4; j++) z.b[j - 1] = (j == i) & (q == k) ? c : z.b[j - 1]; W(&z); }')
T("reverse", "var s, t : string; i : integer;", "read(s); t := ''; for i := length(s) downto 1 do t := t + s[i]; w(t); for i := 1 to length(s) do if s[i] = ' ' then s[i] := '_'; w(s)",
  "S s; rd(&s, 4); S r = s; for (int i = 0; i < s.n; i++) r.b[i] = s.b[s.n - 1 - i]; W(&r); for (int i = 0; i < s.n; i++) s.b[i] = s.b[i] == ' ' ? '_' : s.b[i]; W(&s);")
# ---- slicing ----------------------------------------------------------------------------------------------------------------------
T("copy", "var s, t : string; i, n : integer;", "read(s); read(i); read(n); t := copy(s, i, n); w(t); w(s); w(substr(s, i, n)); w(substr(s, i)); w(copy(s, 1, 2) + copy(s, 3, 9)); w(copy(s, i, 0)); t := copy('hello', 2, 3); w(t)",
  'S s; rd(&s, 4); int i = in_pick(1, 6), n = in_pick(0, 6); S r = sub(&s, i, n); W(&r); W(&s); W(&r); r = sub(&s, i, 255); W(&r); W(&s); r.n = 0; W(&r); r = lit("ell"); W(&r);')
T("copy_big", "var s : string; n : integer;", "read(s); read(n); w(copy(s, 2, n)); w(copy(s, n + 1, 3)); w(copy(s, n, n))",
  'S s; rd(&s, 3); int n = in_i32(); ASSUME((n >= 300) & (n < 2147483647)); S r = sub(&s, 2, 300); W(&r); r.n = 0; W(&r); W(&r);')
T("copy_short", "var a : str4; e : str8; c : char;", "read(a); e := copy(a, 2, 2); w(e); a := copy(a, 1, 3); w(a); w(copy(a + 'zz', 2, 4)); read(c); w(copy(c, 1, 1)); w(copy(c, 2, 1))",
  'S a; rd(&a, 4); S r = sub(&a, 2, 2); W(&r); a = sub(&a, 1, 3); W(&a); S z = lit("zz"); r = cat(&a, &z); r = sub(&r, 2, 4); W(&r); int c = in_chr(); r = ch(c); W(&r); r.n = 0; W(&r);')
T("find", "var s, t : string; c : char; a : str4;", "read(s); read(t); writeln(index(s, t)); writeln(index(s, 'ab')); read(c); writeln(index(s, c)); writeln(index('hello', t)); a := 'b'; writeln(index(s, a)); writeln(index(s + c, c))",
  'S s, t; rd(&s, 3); rd(&t, 2); ASSUME(t.n > 0); IL(idx(&s, &t)); S ab = lit("ab"); IL(idx(&s, &ab)); int cc = in_chr(); S c = ch(cc); IL(idx(&s, &c)); S h = lit("hello"); IL(idx(&h, &t)); S b = lit("b"); IL(idx(&s, &b)); S sc = cat(&s, &c); IL(idx(&sc, &c));')
T("find_rep", "var s, t : string;", "read(s); read(t); writeln(index(s, t)); writeln(index('aabaabaac', 'aabaac'))",
  'S s, t; rd(&s, 4); rd(&t, 3); ASSUME(t.n > 0); IL(idx(&s, &t)); IL(4);')
T("find_empty", "var s : string;", "read(s); writeln(index(s, ''))", "S s; rd(&s, 3); IL(1);")
T("trim", "var s, t : string; a : str4;", "read(s); t := trim(s); w(t); w(s); w(trim('  x y ')); w(trim(s + ' ')); read(a); w(trim(a)); a := trim(a); w(a); w('<' + trim(s) + '>')",
  'S s; rd(&s, 3); int i = 0, e = s.n; while (i < e && s.b[i] <= 32) i++; while (e > i && s.b[e - 1] <= 32) e--; S r = sub(&s, i + 1, e - i); W(&r); W(&s); S x = lit("x y"); W(&x); W(&r); S a; rd(&a, 2); int j = 0, f = a.n; while (j < f && a.b[j] <= 32) j++; while (f > j && a.b[f - 1] <= 32) f--; S q = sub(&a, j + 1, f - j); W(&q); W(&q); S l = lit("<"), g = lit(">"); r = cat(&l, &r); r = cat(&r, &g); W(&r);')
# ---- conversions --------------------------------------------------------------------------------------------------------------------
T("char_array", "type ca = packed array [1..4] of char; var a, c : ca; s : string; e : str4; i : integer;", "a := 'abcd'; read(i); a[i] := '*'; s := a; w(s); e := a; w(e); c := a; c[1] := 'z'; s := s + c; w(s); b(a = 'abcd'); b(a = c); b(s = a); writeln; w(a + '!'); writeln(length(a))",
  'int i = in_range(1, 4); S a = lit("abcd"); for (int j = 1; j <= 4; j++) a.b[j - 1] = j == i ? \'*\' : a.b[j - 1]; W(&a); W(&a); S c = a; c.b[0] = \'z\'; S s = cat(&a, &c); W(&s); B(0); B(0); B(0); NL; S x = lit("!"); s = cat(&a, &x); W(&s); IL(4);')
T("ca_cmp", "type ca = packed array [1..3] of char; var a, c : ca; i : integer; d : char;", "for i := 1 to 3 do begin read(d); a[i] := d end; for i := 1 to 3 do begin read(d); c[i] := d end; " + cmps("a", "c") + cmps("a", "'abc'"),
  "S x, y; x.n = y.n = 3; for (int i = 0; i < 3; i++) x.b[i] = in_chr(); for (int i = 0; i < 3; i++) y.b[i] = in_chr(); { " + CO + " } { S y = lit(\"abc\"); " + CO + " }")
T("const_str", "const hi = 'hello'; e = ''; one = 'x'; var s : string; c : char;", "s := hi; w(s); s := e; w(s); c := one; writeln(c); s := one; w(s); read(s); w(hi + s); b(s = hi); b(s = e); b(s = one); writeln; writeln(length(hi), length(e), length(one)); w('it''s')",
  'S h = lit("hello"), e = lit(""), o = lit("x"); W(&h); W(&e); o_txt("x"); NL; W(&o); S s; rd(&s, 2); S r = cat(&h, &s); W(&r); B(0); B(s.n == 0); B((s.n == 1) & (s.n ? s.b[0] == \'x\' : 0)); NL; I(5); I(0); IL(1); S q = lit("it\'s"); W(&q);')
# ---- parameters and results --------------------------------------------------------------------------------------------------------
T("params", """var s, t : string; a : str4; c : char;
function dbl(x : string) : str; begin x := x + x; dbl := x end;
function id4(x : str4) : str4; begin id4 := x end;
procedure app(var x : string; y : string); begin x := x + y; y := 'no' end;
procedure cl(var x : str4); begin x := '' end;
function pick(n : integer) : str; begin if n = 0 then pick := 'zero' else if n = 1 then pick := s else pick := pick(n - 1) + 'k' end;""",
  "read(s); read(c); t := dbl(s); w(t); w(s); app(s, t); w(s); w(t); app(s, c); w(s); app(s, 'lit'); w(s); w(dbl(c)); w(dbl('q')); w(dbl(dbl(c))); a := 'abcd'; a := id4(a); w(a); w(id4('xy')); w(id4(c)); cl(a); w(a); s := 'S'; w(pick(0)); w(pick(1)); w(pick(3)); writeln(length(dbl(t))); w(dbl(c) + dbl('z'))",
  'S s; rd(&s, 2); int cc = in_chr(); S c = ch(cc), t = cat(&s, &s), r; W(&t); W(&s); s = cat(&s, &t); W(&s); W(&t); s = cat(&s, &c); W(&s); S l = lit("lit"); s = cat(&s, &l); W(&s); S c2 = cat(&c, &c), q = lit("qq"); W(&c2); W(&q); S c4 = cat(&c2, &c2); W(&c4); S ab = lit("abcd"); W(&ab); S xy = lit("xy"); W(&xy); W(&c); S e = lit(""); W(&e); r = lit("zero"); W(&r); r = lit("S"); W(&r); r = lit("Skk"); W(&r); IL(t.n * 2); S z = lit("zz"); r = cat(&c2, &z); W(&r);')
T("nested", """var s : string; n : integer;
procedure outer(x : string); var loc : str8; i : integer;
  procedure inner(k : integer); begin loc := loc + x[k]; x[k] := '.' end;
begin loc := ''; for i := 1 to length(x) do inner(i); w(loc); w(x) end;""", "read(s); outer(s); w(s)",
  "S s; rd(&s, 4); W(&s); S d = s; for (int i = 0; i < s.n; i++) d.b[i] = '.'; W(&d); W(&s);")
T("forin", "var s : string; c : char; n : integer;", "read(s); n := 0; for n := 1 to length(s) do write(ord(s[n]), ','); writeln; case length(s) of 0: writeln('none'); 1: writeln('one'); 2..9: writeln('many') end",
  'S s; rd(&s, 3); for (int i = 0; i < s.n; i++) { I(s.b[i]); o_chr(\',\'); } NL; o_txt(s.n == 0 ? "none" : s.n == 1 ? "one" : "many"); NL;')
T("full", "var g1 : integer; a : str4; g2 : integer; c, e : str4; g3 : integer; d : char;", "g1 := 11; g2 := 22; g3 := 33; a := 'abcd'; c := 'efgh'; e := 'ijkl'; read(d); a[4] := d; c := a; w(a); w(c); w(e); e := copy(a + c, 4, 4); w(e); c := '123' + d; w(c); a := d + '456'; w(a); writeln(g1, g2, g3)",
  'int d = in_chr(); S a = lit("abcd"); a.b[3] = d; W(&a); W(&a); S e = lit("ijkl"); W(&e); S r = cat(&a, &a); r = sub(&r, 4, 4); W(&r); S c = lit("1234"); c.b[3] = d; W(&c); a = lit("x456"); a.b[0] = d; W(&a); I(11); I(22); IL(33);')
T("overflow", "type r = record n : integer; a : str4; m : integer end; var g1 : integer; a : str4; g2 : integer; s : string; x : r; procedure q(k : integer; p : str4; l : integer); begin b(length(p) <= 4); write(k, ' ', l) end;", "g1 := 1; g2 := 2; x.n := 3; x.m := 4; read(s); a := s + 'xyz'; b(length(a) <= 4); x.a := s + s; b(length(x.a) <= 4); a := 'abcdefgh'; b(length(a) <= 4); q(5, s + s, 6); q(7, 'literal', 8); writeln(' ', g1, ' ', g2, ' ', x.n, ' ', x.m)",
  'S s; rd(&s, 5); B(1); B(1); B(1); B(1); I(5); SP; I(6); B(1); I(7); SP; I(8); SP; I(1); SP; I(2); SP; I(3); SP; IL(4);')
if __name__ == "__main__":
    run_tv("C07", progs, [["-O0"], ["-O2"], ["-O1", "-m32"]] + ([["-O1"], ["-O3"], ["-O1", "-Cr"]] if THOROUGH else []), max_time=60,
           bounds={"strings": "every length up to 2..6 with every content (bytes 0..255), concatenation at the 255 limit; string[4], string[8] up to full capacity", "indices, counts": "all values in -2^31..2^31-1 where defined", "programs": "%d" % len(progs)},
           explanation="string operations on symbolic contents, each length a path, against byte-wise definitions")
