"""C19: a name denotes the declaration the scope rules select."""
from common import *
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


P("shadow", """program p; var x, y : integer; c : char;
procedure a; var x : integer; begin x := 5; y := y + x end;
procedure b(x : integer); begin x := x * 2; y := y + x end;
procedure c1(var x : integer); begin x := x + 1 end;
function f(y : integer) : integer; var x : char; begin x := 'q'; if x = 'q' then f := y + 1 else f := 0 end;
procedure d; var y : integer; procedure e; var x : integer; begin x := 9; y := x; c := 'z' end; begin y := 1; e; x := x + y end;
begin read(x); read(y); read(c); a; writeln(x, ' ', y); b(x); writeln(x, ' ', y); c1(x); c1(y); writeln(x, ' ', y); writeln(f(x), ' ', x); d; writeln(x, ' ', y, ' ', c) end.
""", """void oracle(void){ i32 x = in_i32(), y = in_i32(); in_chr(); y = wadd(y, 5); I(x); SP; IL(y); y = wadd(y, wmul(x, 2)); I(x); SP; IL(y); x = wadd(x, 1); y = wadd(y, 1); I(x); SP; IL(y); I(wadd(x, 1)); SP; IL(x); x = wadd(x, 9); I(x); SP; I(y); SP; o_chr('z'); NL; }""")
P("kinds", """program p; const n = 10; type t = integer; color = (red, green, blue); var v, w : integer; col : color;
procedure one; const n = 20; begin w := w + n end;
procedure two; type t = char; var v : t; begin v := 'c'; w := w + ord(v) end;
procedure three; type color = (blue, green, red); var col : color; begin col := red; w := w + ord(col) + ord(blue) + ord(green) end;
procedure four; var n : integer; begin n := 7; w := w + n end;
procedure five; type one = (two, three); var t : one; begin t := three; w := w + ord(t) end;
procedure six(red : integer); begin w := w + red * 3 end;
procedure seven; var integer : char; begin integer := 'A'; w := w + ord(integer) end;
procedure eight; function n : t; begin n := 3 end; begin w := w + n end;
procedure nine; var w : integer; procedure inner; const w = 4; begin v := v + w end; begin w := 2; inner; v := v * w end;
begin read(v); w := v; col := red; one; writeln(w); two; writeln(w); three; writeln(w); four; writeln(w); five; writeln(w); six(v); writeln(w); seven; writeln(w); eight; writeln(w); nine; writeln(v, ' ', w); writeln(n, ord(col):2, ord(blue):2); end.
""", """void oracle(void){ i32 v = in_range(-9999, 9999), w = v; w += 20; IL(w); w += 99; IL(w); w += 2 + 0 + 1; IL(w); w += 7; IL(w); w += 1; IL(w); w += v * 3; IL(w); w += 65; IL(w); w += 3; IL(w); v = (v + 4) * 2; I(v); SP; IL(w); I(10); o_int(0,2); o_int(2,2); NL; }""")
P("deep", """program p; var a, b, c, k : integer;
procedure l1(a : integer); var b : integer;
  procedure l2(b : integer); var c : integer;
    procedure l3(c : integer); var a : integer;
    begin a := c + 1; k := k + a; b := b + a; l1b := 0 end;
  begin c := b; l3(c + a); k := k + b + c end;
  procedure l2b; begin b := b + a; a := a + 1 end;
begin b := a * 2; l2(b); l2b; l2(b); k := k + a end;
begin read(a); read(b); read(c); k := 0; l1(a); writeln(k); l1(c); writeln(k); writeln(a, ' ', b, ' ', c) end.
""".replace(" l1b := 0", " b := b"), """static i32 k; static void l2(i32 a, i32 b) { i32 c = b, a3 = wadd(wadd(c, a), 1); k = wadd(k, a3); b = wadd(b, a3); k = wadd(k, wadd(b, c)); }
static void l1(i32 a) { i32 b = wmul(a, 2); l2(a, b); b = wadd(b, a); a = wadd(a, 1); l2(a, b); k = wadd(k, a); }
void oracle(void){ i32 a = in_i32(), b = in_i32(), c = in_i32(); l1(a); IL(k); l1(c); IL(k); I(a); SP; I(b); SP; IL(c); }""")
P("samename", """program p; var r : integer;
procedure a(x : integer); procedure help; begin r := r + x end; begin help; help end;
procedure b(x : integer); procedure help; begin r := r * x end; begin help end;
function c(x : integer) : integer; function help(x : integer) : integer; begin help := x + 100 end; begin c := help(x) + x end;
procedure help; begin r := r - 1 end;
procedure d; procedure a(y : integer); begin r := r + y * 1000 end; begin a(2); help end;
begin read(r); a(5); writeln(r); b(3); writeln(r); writeln(c(r)); help; writeln(r); d; writeln(r); a(1); writeln(r) end.
""", "void oracle(void){ i32 r = in_range(-9999, 9999); r += 10; IL(r); r *= 3; IL(r); IL(r + 100 + r); r--; IL(r); r += 2000; r--; IL(r); r += 2; IL(r); }")
P("case_", """program MixEd; CONST MaX = 5; TYPE Rec = RECORD FooBar : integer; c : Char END; eNum = (Alpha, BETA); VAR Valu : Integer; R : rEC; E : ENUM; Arr : Array[1..mAx] of INTEGER;
Procedure DoIt(Param : integer; VAR Outp : integer); Var Local : integer; Begin LOCAL := param + vALU; OUTP := local End;
Function FuNc(x : Integer) : integer; begin FUNC := X + MAX end;
FUNCTION Fwd(n : INTEGER) : integer; Forward;
function fWD; begin if N = 0 then fwD := 1 else FWD := n * fwd(N - 1) end;
BEGIN READ(VALU); DOIT(valu, Arr[1]); WriteLN(aRR[1]); r.fooBAR := func(VaLu); wRiTeLn(R.FOOBAR); e := ALPHA; E := Succ(e); if e = beta THEN writeln('ok'); r.C := 'x'; WITH R do begin FOObar := foobar + 1; C := Succ(C) end; writeln(r.foobar, R.c); writeln(FWD(4)); Case e Of Beta : writeln('b'); aLPHA : writeln('a') End;
For Valu := 1 To max Do arr[vaLU] := VALU; writeln(ARR[5]); writeln('MiXeD') END.
""", "void oracle(void){ i32 v = in_i32(); IL(wadd(v, v)); IL(wadd(v, 5)); o_txt(\"ok\"); NL; I(wadd(v, 6)); o_chr('y'); NL; IL(24); o_txt(\"b\"); NL; IL(5); o_txt(\"MiXeD\"); NL; }")
P("with1", """program p; type ra = record x, y : integer; c : char end; rb = record y, z : integer; s : ra end; rc = record x : char; w : rb end;
var a : ra; b : rb; c : rc; x, y, z, w, s : integer; arr : array [1..3] of ra; q : ^rb; i : integer;
procedure show; begin writeln(x, ' ', y, ' ', z, ' ', w, ' ', s) end;
procedure sh(var r : ra); begin writeln(r.x, ' ', r.y) end;
begin read(x); read(y); z := 3; w := 4; s := 5; a.x := 10; a.y := 20; a.c := 'a'; b.y := 30; b.z := 40; b.s := a; c.x := 'q'; c.w := b;
 with a do begin x := x + 1; y := y + x; z := z + 1 end; sh(a); show;
 with a, b do begin y := y + 1; x := x + y; z := x end; sh(a); writeln(b.y, ' ', b.z); show;
 with b, s do begin y := 7; z := z + 1; x := y end; sh(b.s); writeln(b.y, ' ', b.z); show;
 with c do with w do with s do begin x := 99; y := z; z := 1 end; sh(c.w.s); writeln(c.w.y, ' ', c.w.z, ' ', c.x); show;
 with c, w.s do begin x := 98; y := w.y; c := 'k' end; sh(c.w.s); writeln(c.x, c.w.s.c);
 for i := 1 to 3 do with arr[i] do begin x := i; y := z + i; c := chr(64 + i) end; i := 2; with arr[i] do begin i := 3; x := x * 100 + i; end; for i := 1 to 3 do sh(arr[i]);
 new(q); q^ := b; with q^ do begin y := 1; with s do y := 2; z := y end; writeln(q^.y, ' ', q^.z, ' ', q^.s.y, ' ', b.y); with a do show; show
end.
""", """static i32 gx, gy, gz, gw, gs; static void show(void) { I(gx); SP; I(gy); SP; I(gz); SP; I(gw); SP; IL(gs); } static void sh(i32* r) { I(r[0]); SP; IL(r[1]); }
void oracle(void){ gx = in_i32(); gy = in_i32(); gz = 3; gw = 4; gs = 5; i32 a[2] = { 10, 20 }, by = 30, bz = 40, bs[2] = { 10, 20 }, cwy = 30, cwz = 40, cws[2] = { 10, 20 };
 a[0]++; a[1] += a[0]; gz++; sh(a); show(); by++; a[0] += by; bz = a[0]; sh(a); I(by); SP; IL(bz); show(); bs[1] = 7; bz++; bs[0] = bs[1]; sh(bs); I(by); SP; IL(bz); show();
 cws[0] = 99; cws[1] = cwz; cwz = 1; sh(cws); I(cwy); SP; I(cwz); SP; o_chr('q'); NL; show(); cws[0] = 98; cws[1] = cwy; sh(cws); o_txt("qk"); NL;
 for (int i = 1; i <= 3; i++) { i32 r[2] = { i == 2 ? 203 : i, gz + i }; sh(r); } I(1); SP; I(1); SP; I(2); SP; IL(by); show(); show(); }""")
P("with2", """program p; type r = record a, b : integer end; var v, w : r; a, b, k : integer;
procedure q(var r : integer); var b : integer; begin b := 3; with v do begin r := a + b; b := 50 end; k := k + b end;
function f(v : integer) : integer; var w : r; begin w.a := v; w.b := 2; with w do f := a * b + k end;
procedure n(x : r); procedure m; begin with x do begin a := a + 1; w.a := a end end; begin m; m; with x do b := a; k := x.b end;
begin read(a); read(k); v.a := 1; v.b := 2; w.a := 3; w.b := 4; q(a); writeln(a, ' ', v.b, ' ', k); writeln(f(5)); with v do begin a := 77; with w do a := 78; b := a end; writeln(v.a, ' ', v.b, ' ', w.a, ' ', a); n(v); writeln(w.a, ' ', k, ' ', v.a);
 with v do begin a := f(a); q(a) end; writeln(v.a, ' ', v.b) end.
""", """void oracle(void){ in_i32(); i32 k = in_i32(); k = wadd(k, 3); I(3); SP; I(50); SP; IL(k); IL(wadd(10, k)); I(77); SP; I(77); SP; I(78); SP; IL(3); k = 79; I(79); SP; I(79); SP; IL(77);
 i32 va = 77 * 2 + 79; va = va + 77; I(va); SP; IL(50); }""".replace("va = va + 77; I(va); SP; IL(50);", "va = va + 77; I(va); SP; IL(50);"))
P("recursion", """program p; var t, n : integer;
procedure a(n : integer); var loc : integer; procedure b(m : integer); begin if m > 0 then begin loc := loc + n; a(m - 1); b(m - 2) end end; begin loc := 0; if n > 0 then b(n); t := t * 3 + loc; end;
function g(n : integer; function h(x : integer) : integer) : integer; begin g := h(n) + n end;
function d(n : integer) : integer; var n2 : integer; function e(x : integer) : integer; begin e := x * n + n2 end; begin n2 := 100; if n = 0 then d := 0 else d := g(2, e) + d(n - 1) end;
begin read(n); t := 0; a(3); writeln(t); writeln(d(n mod 4)) end.
""", """static i32 t; static void a(int n); static void b(int m, int n, int* loc) { if (m > 0) { *loc += n; a(m - 1); b(m - 2, n, loc); } } static void a(int n) { int loc = 0; if (n > 0) b(n, n, &loc); t = t * 3 + loc; }
static int d(int n) { return n == 0 ? 0 : 2 * n + 100 + 2 + d(n - 1); }
void oracle(void){ int n = in_pick(0, 3); a(3); IL(t); IL(d(n)); }""")
P("results", """program p; var f1, g : integer;
function f : integer; begin f := 3; if g > 0 then f := 4 end;
function h(f : integer) : integer; begin h := f * 2 end;
function k = r : integer; begin r := 5; r := r + g end;
function fact(n : integer) : integer; begin if n <= 1 then fact := 1 else fact := fact(n - 1) * n end;
function outer(x : integer) : integer; function inner(y : integer) : integer; begin inner := y + 1; outer := y * 10; end; begin outer := 7; if inner(x) > 3 then outer := outer_(inner(x)); end;
begin read(g); f1 := f; writeln(f1); writeln(h(f)); writeln(k); writeln(fact(5)); end.
""".replace("function outer(x : integer) : integer; function inner(y : integer) : integer; begin inner := y + 1; outer := y * 10; end; begin outer := 7; if inner(x) > 3 then outer := outer_(inner(x)); end;\n", "function outer(x : integer) : integer; function inner(y : integer) : integer; begin inner := y + 1; outer := y * 10 end; begin outer := 7; if inner(x) > 3 then else outer := 8 end;\n").replace("writeln(fact(5))", "writeln(fact(5)); writeln(outer(5), ' ', outer(1))"),
  "void oracle(void){ i32 g = in_i32(); int f = g > 0 ? 4 : 3; IL(f); IL(f * 2); IL(wadd(5, g)); IL(120); I(50); SP; IL(8); }")
P("mutual", """program p; var t, n : integer; procedure b(n : integer); forward; function even(n : integer) : boolean; forward;
procedure a(n : integer); begin t := t * 10 + n; if n > 1 then b(n - 1) end; procedure b(n : integer); begin t := t * 10 + 9 - n; if n > 0 then a(n - 1) end;
function odd1(n : integer) : boolean; begin if n = 0 then odd1 := false else odd1 := even(n - 1) end; function even; begin if n = 0 then even := true else even := odd1(n - 1) end;
begin read(n); t := 0; a(n); writeln(t); writeln(ord(even(n)):1, ord(odd1(n)):1) end.
""", """static i32 t; static void b(int n); static void a(int n) { t = wadd(wmul(t, 10), n); if (n > 1) b(n - 1); } static void b(int n) { t = wadd(wmul(t, 10), 9 - n); if (n > 0) a(n - 1); }
void oracle(void){ int n = in_pick(0, 7); a(n); IL(t); o_int(!(n & 1), 1); o_int(n & 1, 1); NL; }""")
P("enums", """program p; type a = (x1, x2, x3); b = (y1, y2, y3, y4); sub = y2..y3; var va : a; vb : b; s : sub; i : integer; arr : array [a] of integer; st : set of b;
procedure q; type c = (x3, x2, x1); var v : c; begin v := x1; i := i * 10 + ord(v); v := x3; i := i * 10 + ord(v) end;
begin read(i); va := x3; vb := y4; for va := x1 to x3 do arr[va] := ord(va) + i; q; writeln(i); writeln(arr[x1], ' ', arr[x3]); st := [y1, y3]; s := y3; writeln(ord(s in st):1, ord(y2 in st):1); va := x2; case va of x1: write('1'); x2: write('2'); x3: write('3') end; writeln(ord(succ(va)):1, ord(pred(y4)):1); vb := s; writeln(ord(vb = y3):1) end.
""", "void oracle(void){ i32 i = in_range(-9999, 9999); IL(i * 100 + 20); I(i); SP; IL(i + 2); o_int(1,1); o_int(0,1); NL; o_chr('2'); o_int(2,1); o_int(2,1); NL; o_int(1,1); NL; }")
P("protopar", """program p; var x, y : integer; procedure a(x, y : integer; var z : integer; c : char); forward; procedure b(y, x : integer); begin a(x, y, x, 'b'); writeln(x, ' ', y) end;
procedure a; begin z := x * 100 + y; x := 0; if c = 'b' then y := 1 end; procedure c(procedure d(x, y : integer); v : integer); begin d(v, 5) end; procedure e(y, x : integer); begin writeln(y - x) end;
begin read(x); read(y); b(x, y); a(x, y, x, 'c'); writeln(x, ' ', y); c(e, x) end.
""", "void oracle(void){ i32 x = in_range(-99,99), y = in_range(-99,99); I(y * 100 + x); SP; IL(x); int z = x * 100 + y; I(z); SP; IL(y); IL(z - 5); }")
# ---- units ----------------------------------------------------------------------------------------------------------------------
P("unit1", {"main.pas": """program p; uses u1; var x, priv : integer; k : ut; r : urec; c : ucol;
procedure help(n : integer); begin writeln('main ', n) end;
begin read(x); priv := 77; writeln(ucount); uadd(x); writeln(ucount); help(x); k := 5; r.a := k; r.b := 'z'; ushow(r); writeln(uget(3)); writeln(priv); ucount := 1000; uadd(1); writeln(ucount, ' ', uget(0)); c := ublue; writeln(ord(c):1); UADD(2); writeln(UCount) end.
""", "u1.pas": """unit u1; interface type ut = 1..9; urec = record a : integer; b : char end; ucol = (ured, ublue); var ucount : integer;
procedure uadd(n : integer); function uget(n : integer) : integer; procedure ushow(r : urec);
implementation
var priv, last : integer;
procedure help(n : integer); begin last := n; priv := priv + n end;
procedure uadd(n : integer); begin ucount := ucount + n; help(n) end;
function uget(n : integer) : integer; begin uget := priv * 10 + n + last end;
procedure ushow(r : urec); begin writeln(r.a, r.b) end;
begin ucount := 42; priv := 1; last := 0 end.
"""}, """void oracle(void){ i32 x = in_range(-99999, 99999), priv = 1, last = 0, u = 42; IL(u); u += x; priv += x; last = x; IL(u); o_txt("main "); IL(x); I(5); o_chr('z'); NL; IL(priv * 10 + 3 + last); IL(77); u = 1001; priv += 1; last = 1; I(u); SP; IL(priv * 10 + last); o_int(1, 1); NL; u += 2; IL(u); }""")
P("unit2", {"main.pas": """program p; uses ua; uses ub; var n : integer;
begin read(n); writeln(va, ' ', vb); pa(n); pb(n); writeln(va, ' ', vb); end.
""", "ua.pas": """unit ua; interface var va : integer; procedure pa(n : integer); implementation procedure loc; begin va := va + 1 end; procedure pa(n : integer); begin va := va + n; loc end; begin va := 10 end.
""", "ub.pas": """unit ub; interface var vb : integer; procedure pb(n : integer); implementation procedure loc; begin vb := vb * 2 end; procedure pb(n : integer); begin vb := vb - n; loc end; begin vb := 20 end.
"""}, "void oracle(void){ i32 n = in_range(-99999, 99999); I(10); SP; IL(20); I(10 + n + 1); SP; IL((20 - n) * 2); }")
P("unit3", {"main.pas": """program p; uses outr; var n : integer; begin read(n); writeln(ov, ' ', oget(n)) end.
""", "outr.pas": """unit outr; interface uses innr; var ov : integer; function oget(n : integer) : integer; implementation function oget(n : integer) : integer; begin iinc(n); oget := iv + ov end; begin ov := iv + 1 end.
""", "innr.pas": """unit innr; interface var iv : integer; procedure iinc(n : integer); implementation procedure iinc(n : integer); begin iv := iv + n end; begin iv := 5 end.
"""}, "void oracle(void){ i32 n = in_range(-99999, 99999); I(6); SP; IL(5 + n + 6); }")
P("unit4", {"main.pas": """program p; uses objs; var c : counter; d : twice; n : integer; procedure reset1; begin n := 0 end;
begin read(n); c.init(n); d.init(n); c.step; d.step; writeln(c.get, ' ', d.get); reset1; writeln(n) end.
""", "objs.pas": """unit objs; interface type counter = object v : integer; procedure init(n : integer); procedure step; virtual; function get : integer; end; twice = object(counter) procedure step; override; end;
implementation procedure counter.init(n : integer); begin v := n end; procedure counter.step; begin v := v + 1 end; function counter.get : integer; begin get := v end; procedure twice.step; begin v := v + 2 end; begin end.
"""}, "void oracle(void){ i32 n = in_i32(); I(wadd(n,1)); SP; IL(wadd(n,2)); IL(0); }")
# ---- random programs: declarations of the same few names at every level -----------------------------------------------------------
NAMES = ["a", "b", "c", "d"]


class Scopes:
    """Nested procedures that each redeclare some of four names.  The C text keeps every procedure's variables in a
    frame with a pointer to the frame of the procedure around it, and gives every declaration a name of its own."""

    def __init__(self, k):
        self.r = random.Random(SEED * 1000 + k)
        self.n = 0
        self.structs, self.funcs = [], []

    def uid(self):
        self.n += 1
        return self.n

    def cs(self, n):
        return n.upper() if self.r.random() < 0.25 else n

    def ref(self, env, n, depth):
        kind, d, cn = env[n]
        if kind == "c" or d == 0:
            return cn
        t = "f" + "->up" * (depth - d) + "->" + cn
        return "(*%s)" % t if kind == "p" else t

    def body(self, env, calls, depth, nest):
        r = self.r
        pl, cl = [], []
        vis = [n for n in NAMES if env[n][0] != "c"]

        def assign():
            if not vis:
                return
            t, x, y, k = r.choice(vis), r.choice(NAMES), r.choice(NAMES), r.randint(2, 9)
            f = r.choice(["wadd", "wsub"])
            if r.random() < 0.75:
                pl.append("%s := %s %s %d" % (self.cs(t), self.cs(x), "+" if f == "wadd" else "-", k))
                cl.append("%s = %s(%s, %d);" % (self.ref(env, t, depth), f, self.ref(env, x, depth), k))
            else:
                pl.append("%s := %s %s %s" % (self.cs(t), self.cs(x), "+" if f == "wadd" else "-", self.cs(y)))
                cl.append("%s = %s(%s, %s);" % (self.ref(env, t, depth), f, self.ref(env, x, depth), self.ref(env, y, depth)))
        assign()
        self.cost = 2
        calls = calls[:]
        r.shuffle(calls)
        for (pn, cn, pd, args, cost) in calls:
            if self.cost + cost > (30 if depth == 0 else 14):
                continue
            pa, ca = [], ["0" if pd == 0 else "f" + "->up" * (depth - pd)]
            for md in args:
                if md == "p" and not vis:
                    break
                n = r.choice(vis if md == "p" else NAMES)
                pa.append(self.cs(n))
                ca.append(("&" if md == "p" else "") + self.ref(env, n, depth))
            else:
                pl.append(self.cs(pn) + ("(%s)" % ", ".join(pa) if pa else ""))
                cl.append("%s(%s);" % (cn, ", ".join(ca)))
                self.cost += cost + 1
                assign()
        return pl, cl

    def proc(self, env, depth, name, outer):
        r = self.r
        me = "%s_%d" % (name, self.uid())
        env = dict(env)
        args, apas, fields, init, used, mem = [], [], [], [], [], []
        pool = NAMES[:]
        r.shuffle(pool)
        for n in pool[:r.choice([0, 1, 1, 2])]:
            md = r.choice("vp")
            cn = "%s_%d" % (n, self.uid())
            args.append(md)
            apas.append(("var " if md == "p" else "") + self.cs(n) + " : integer")
            fields.append("i32%s %s" % ("*" if md == "p" else "", cn))
            env[n] = (md, depth, cn)
            used.append(n)
        cons, vars_, plinit = [], [], []
        for n in NAMES:
            if n in used:
                continue
            z, cn = r.random(), "%s_%d" % (n, self.uid())
            if z < 0.3:
                vars_.append("var %s : integer;" % self.cs(n))
                mem.append(cn)
                plinit.append("%s := %d" % (n, self.n))
                init.append("F.%s = %d;" % (cn, self.n))
                env[n] = ("v", depth, cn)
            elif z < 0.42:
                v = r.randint(10, 99)
                cons.append("const %s = %d;" % (self.cs(n), v))
                env[n] = ("c", depth, str(v))
        inner, calls = [], [c for c in outer if c[0] != name]
        for nm in r.sample(["q1", "q2", "s1", "s2", "t1", "t2"], r.choice([[], [1, 2, 2], [0, 1, 1, 2], [0, 0, 1]][depth] if depth < 4 else [0])):
            txt, sig = self.proc(env, depth + 1, nm, calls)
            inner.append(txt)
            calls = [c for c in calls if c[0] != nm] + [sig]
        pl, cl = self.body(env, calls, depth, True)
        cost = self.cost
        self.structs.append((me, depth, fields, mem))
        pro = ", ".join(["%UP% up"] + fields)
        setup = "struct F_%s F, *f = &F; F.up = up; %s %s" % (me, " ".join("F.%s = %s;" % ((x.split()[-1],) * 2) for x in fields), " ".join(init))
        self.funcs.append((me, depth, pro, setup, cl))
        txt = "procedure %s%s; %s %s\n%sbegin %s end;\n" % (self.cs(name), "(%s)" % "; ".join(apas) if apas else "", " ".join(cons), " ".join(vars_), "".join(inner), "; ".join(plinit + pl))
        return txt, (name, me, depth - 1, args, cost)

    def program(self):
        env = {n: ("v", 0, "g_" + n) for n in NAMES}
        txts, calls = [], []
        for i in range(3):
            t, sig = self.proc(env, 1, "p%d" % i, calls)
            txts.append(t)
            calls.append(sig)
        pl, cl = self.body(env, calls, 0, False)
        pl2, cl2 = self.body(env, calls, 0, False)
        pas = "program p; var %s : integer;\n%sbegin read(a); read(b); read(c); read(d);\n%s;\nwriteln(a, ' ', b, ' ', c, ' ', d) end.\n" % (", ".join(NAMES), "".join(txts), "; ".join(pl + pl2))
        return pas, cl + cl2


def scopes(k):
    """the parent of a procedure is the next procedure of smaller depth that is finished after it"""
    s = Scopes(k)
    pas, cl = s.program()
    parent = {}
    for i, (me, depth, *_r) in enumerate(s.funcs):
        for (m2, d2, *_q) in s.funcs[i + 1:]:
            if d2 < depth:
                parent[me] = m2
                break
    out = ["static i32 g_a, g_b, g_c, g_d;"]
    for (me, depth, fields, mem) in reversed(s.structs):
        up = "struct F_%s*" % parent[me] if depth > 1 else "void*"
        out.append("struct F_%s { %s up; %s };" % (me, up, " ".join(x + ";" for x in fields + ["i32 " + m for m in mem])))
    for (me, depth, pro, setup, body) in s.funcs:
        up = "struct F_%s*" % parent[me] if depth > 1 else "void*"
        out.append("static void %s(%s);" % (me, pro.replace("%UP%", up)))
    for (me, depth, pro, setup, body) in s.funcs:
        up = "struct F_%s*" % parent[me] if depth > 1 else "void*"
        out.append("static void %s(%s) { %s\n %s }" % (me, pro.replace("%UP%", up), setup, "\n ".join(body)))
    out.append("void oracle(void){ g_a = in_i32(); g_b = in_i32(); g_c = in_i32(); g_d = in_i32();\n %s\n I(g_a); SP; I(g_b); SP; I(g_c); SP; IL(g_d); }" % "\n ".join(cl))
    return pas, "\n".join(out)


for k in range(600 if THOROUGH else 200):
    P("scopes_%d" % k, *scopes(k))
# ---- closures: what a nested routine passes on -----------------------------------------------------------------------------------
P("closure1", """program p; var n : integer;
procedure o(x : integer); var y, z : integer;
  procedure u1; begin y := y + x end; procedure u2; begin u1; u1 end; procedure u3(y : integer); begin u2; z := z + y end;
  procedure u4(x : integer); var z : integer; procedure v1; begin z := z + x; u3(z) end; begin z := 1; v1; v1; y := y + z end;
  function w(function f(k : integer) : integer; k : integer) : integer; begin w := f(k) + f(k + 1) end;
  function r1(x : integer) : integer; begin u2; r1 := x - y end; function r2(y : integer) : integer; begin r2 := w(r1, y) + y end;
begin y := 100; z := 0; u3(5); u4(7); writeln(y, ' ', z); writeln(w(r1, 3)); writeln(r2(2)); writeln(w(r2, 1)); writeln(y, ' ', z) end;
begin read(n); o(n) end.
""", """static i32 x, y, z; static void u2(void) { y = wadd(y, wmul(2, x)); } static void u3(i32 y1) { u2(); z = wadd(z, y1); }
static i32 r1(i32 x1) { u2(); return wsub(x1, y); } static i32 wr1(i32 k) { i32 a = r1(k), b = r1(k + 1); return wadd(a, b); } static i32 r2(i32 y1) { return wadd(wr1(y1), y1); }
void oracle(void){ x = in_i32(); y = 100; z = 0; u3(5); i32 z1 = 1; z1 += 7; u3(z1); z1 += 7; u3(z1); y = wadd(y, z1); I(y); SP; IL(z); IL(wr1(3)); IL(r2(2)); i32 a = r2(1), b = r2(2); IL(wadd(a, b)); I(y); SP; IL(z); }""")
P("closure2", """program p; type arr = array [1..4] of integer; rec = record f, g : integer end; var n : integer; t : arr;
function main_(v : arr; var q : rec; n : integer; s : string) : integer; var i : integer; c : char;
  procedure inc_(d : integer); begin v[d] := v[d] + n; q.f := q.f + 1; Q.G := q.g * 2; main_ := v[D]; c := s[d] end;
  procedure each(i : integer); procedure one; begin inc_(i); if i > 1 then each(i - 1) end; begin one; s := s + c end;
begin c := '-'; i := 9; each(3); for i := 1 to 4 do write(v[i], ' '); writeln(s, i - i) end;
var z : rec; k : integer;
begin read(n); for k := 1 to 4 do t[k] := k * 10; z.f := 0; z.g := 1; writeln(main_(t, z, n, 'abcd'), ' ', z.f, ' ', z.g, ' ', t[1]) end.
""", """void oracle(void){ i32 n = in_i32(); I(wadd(10,n)); SP; I(wadd(20,n)); SP; I(wadd(30,n)); SP; I(40); SP; o_txt("abcd"); o_chr('a'); o_chr('a'); o_chr('a'); IL(0); I(wadd(10,n)); SP; I(3); SP; I(8); SP; IL(10); }""")
P("closure3", """program p; var a : array [2..5] of integer; n : integer;
procedure o(var x : array [l..h : integer] of integer; k : integer); var i : integer;
  procedure put(j : integer); begin x[j] := x[j] + l * 100 + h; k := k + x[l] end; function get(j : integer) : integer; begin put(j); get := x[h] + k end;
  procedure inner(y : array [l..h : integer] of integer); begin y[l] := 0; put(h); for i := l to h do k := k + y[i] end;
begin for i := l to h do put(i); writeln(get(l), ' ', k); inner(a); writeln(x[l], ' ', x[h], ' ', k) end;
begin read(n); for n := 2 to 5 do a[n] := n; read(n); o(a, n); writeln(a[2], ' ', a[5]) end.
""", """static i32 x[6], k; static void put(int j) { x[j] += 205; k = wadd(k, x[2]); } void oracle(void){ in_i32(); k = in_i32(); for (int i = 2; i <= 5; i++) x[i] = i; for (int i = 2; i <= 5; i++) put(i); put(2); I(wadd(x[5], k)); SP; IL(k);
 int y[6]; memcpy(y, x, sizeof y); y[2] = 0; put(5); for (int i = 2; i <= 5; i++) k = wadd(k, y[i]); I(x[2]); SP; I(x[5]); SP; IL(k); I(x[2]); SP; IL(x[5]); }""")
P("closure4", """program p; var n, m : integer; function o(x : integer) = res : integer; var c : integer; procedure add(d : integer); begin res := res + d; c := c + 1 end; function twice(res : integer) : integer; begin add(res); twice := res * 2 end;
function o2(c : integer) = res : integer; begin res := c; add(c); res := res + twice(res) end; begin c := 0; res := x; add(1); add(twice(2)); add(o2(3)); m := c end;
begin read(n); writeln(o(n), ' ', m) end.
""", "void oracle(void){ i32 n = in_i32(); i32 res = wadd(n, 1); res = wadd(res, 2); res = wadd(res, 4); res = wadd(res, 3); res = wadd(res, 3); res = wadd(res, 9); I(res); SP; IL(6); }")
P("closure5", """program p; var n : integer; procedure A(Count : integer); var Total : integer; procedure B; begin TOTAL := total + COUNT; procedure_ end; begin Total := 0; b; B; writeln(tOtAl) end;
begin read(n); a(n) end.
""".replace("; procedure_ end", " end"), "void oracle(void){ i32 n = in_i32(); IL(wadd(n, n)); }")
if __name__ == "__main__":
    run_tv("C19", progs, [["-O0"], ["-O2"]] + ([["-O1", "-m32"]] if THOROUGH else []), max_time=30,
           bounds={"programs": "%d (hand-written families and units, random nestings of procedures that redeclare names to depth 4), every integer input value" % len(progs)},
           explanation="the compiled program is executed symbolically and its complete output compared with a C statement in which every declaration has a name of its own")
