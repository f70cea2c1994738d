#!/usr/bin/env python3
"""C21: methods and fields of objects.

The generator declares class hierarchies (chains and trees up to depth 4, any class may add virtual methods, override
them at any later level, redeclare plain methods, add fields of several types and static fields).  The oracle is a C
struct per class with all fields side by side and a dispatch that follows the class the object was created as."""
from common import *
import random

progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


H = """program p; type a = object x : integer; function f : integer; virtual; function g : integer; procedure put(n : integer); end;
b = object(a) y : integer; function f : integer; override; function g : integer; end;
c = object(b) z : integer; function f : integer; override; end;
d = object(c) w : integer; procedure put(n : integer); end;
function a.f : integer; begin f := x + 1 end; function a.g : integer; begin g := f + 10 end; procedure a.put(n : integer); begin x := n end;
function b.f : integer; begin f := x + y + 2 end; function b.g : integer; begin g := f + 20 end;
function c.f : integer; begin f := x + y + z + 3 end; procedure d.put(n : integer); begin w := n; x := n + 5 end;
"""
HC = "typedef struct { i32 x, y, z, w; int k; } T; static i32 f(T* t) { return t->k == 0 ? wadd(t->x, 1) : t->k == 1 ? wadd(wadd(t->x, t->y), 2) : wadd(wadd(wadd(t->x, t->y), t->z), 3); } static i32 ga(T* t) { return wadd(f(t), 10); } static i32 gb(T* t) { return wadd(f(t), 20); }\n"
P("basic", H + """var n, m : integer; va : a; vb : b; vc : c; vd : d;
begin read(n); read(m); va.put(n); vb.put(m); vb.y := n; vc.put(n); vc.y := 3; vc.z := m; vd.put(m); vd.y := 1; vd.z := 2;
writeln(va.f, ' ', vb.f, ' ', vc.f, ' ', vd.f); writeln(va.g, ' ', vb.g, ' ', vc.g, ' ', vd.g); writeln(va.x, ' ', vb.x, ' ', vb.y, ' ', vc.x, ' ', vc.y, ' ', vc.z, ' ', vd.x, ' ', vd.w) end.
""", HC + """void oracle(void){ i32 n = in_i32(), m = in_i32(); T a = {n,0,0,0,0}, b = {m,n,0,0,1}, c = {n,3,m,0,2}, d = {wadd(m,5),1,2,m,3};
I(f(&a)); SP; I(f(&b)); SP; I(f(&c)); SP; IL(f(&d)); I(ga(&a)); SP; I(gb(&b)); SP; I(gb(&c)); SP; IL(gb(&d)); I(a.x); SP; I(b.x); SP; I(b.y); SP; I(c.x); SP; I(c.y); SP; I(c.z); SP; I(d.x); SP; IL(d.w); }""")
P("pointers", H + """var n, i : integer; p : ^a; pb : ^b; pc : ^c; pd : ^d; q : array [0..3] of ^a; pq : ^a;
procedure use(var o : a; n : integer); begin o.put(n); writeln(o.f, ' ', o.g) end; procedure useb(var o : b; n : integer); begin o.put(n); writeln(o.f, ' ', o.g) end;
begin read(n); read(i); new(p); new(pb); pb^.y := 1; new(pc); pc^.y := 2; pc^.z := 3; new(pd); pd^.y := 4; pd^.z := 5; pd^.w := 6; q[0] := p; q[1] := pb; q[2] := pc; q[3] := pd;
pq := q[i]; pq^.put(n); writeln(pq^.f, ' ', pq^.g); use(q[i]^, n + 1); use(pd^, n + 2); useb(pd^, n); pd^.put(n); writeln(pd^.f, ' ', pd^.w, ' ', q[3]^.g, ' ', pc^.g, ' ', pd^.x) end.
""", HC + """void oracle(void){ i32 n = in_i32(); int i = in_pick(0, 3); T a = {0,0,0,0,0}, b = {0,1,0,0,1}, c = {0,2,3,0,2}, d = {0,4,5,6,3}; T* q[4] = {&a,&b,&c,&d}; T* p = q[i];
c.x = 0; p->x = n; I(f(p)); SP; IL(ga(p)); p->x = wadd(n,1); I(f(p)); SP; IL(ga(p)); d.x = wadd(n,2); I(f(&d)); SP; IL(ga(&d)); d.x = n; I(f(&d)); SP; IL(gb(&d)); d.w = n; d.x = wadd(n,5); I(f(&d)); SP; I(d.w); SP; I(ga(&d)); SP; I(gb(&c)); SP; IL(d.x); }""".replace("c.x = 0;", ""), )
progs[-1].pas = progs[-1].pas.replace("new(pc);", "new(pc); pc^.x := 0;")
P("containers", H.replace("var ", "var ") + """type r = record k : integer; o : b; l : array [1..2] of c end; var n, i : integer; arr : array [1..3] of b; q : r; g : array [0..1, 0..1] of d; pr : ^r;
procedure local(n, i : integer); var arr : array [1..3] of c; q : r; begin arr[i].put(n); arr[i].y := 1; arr[i].z := 2; writeln(arr[i].f, ' ', arr[i].g); q.k := 5; q.o.y := i; q.o.put(n); q.l[2].put(1); q.l[2].y := n; q.l[2].z := q.k; writeln(q.o.f, ' ', q.l[2].g) end;
begin read(n); read(i); arr[i].put(n); arr[i].y := 7; writeln(arr[i].f, ' ', arr[i].g); q.o.put(n + 1); q.o.y := i; q.l[1].put(3); q.l[1].y := i; q.l[1].z := n; writeln(q.o.g, ' ', q.l[1].f);
g[1, 0].put(n); g[1, 0].y := 0; g[1, 0].z := 9; writeln(g[1, 0].f, ' ', g[1, 0].w); new(pr); pr^.o.put(n); pr^.o.y := 3; pr^ .l[2].put(n); pr^.l[2].y := 0; pr^.l[2].z := i; writeln(pr^.o.f, ' ', pr^.l[2].g); local(n, i); with q do writeln(o.f, ' ', l[1].g) end.
""", HC + """void oracle(void){ i32 n = in_i32(); int i = in_pick(1, 3); T b = {n,7,0,0,1}; I(f(&b)); SP; IL(gb(&b)); T o = {wadd(n,1),i,0,0,1}, l = {3,i,n,0,2}; I(gb(&o)); SP; IL(f(&l)); T d = {wadd(n,5),0,9,n,3}; I(f(&d)); SP; IL(n);
T po = {n,3,0,0,1}, pl = {n,0,i,0,2}; I(f(&po)); SP; IL(gb(&pl)); T c = {n,1,2,0,2}; I(f(&c)); SP; IL(gb(&c)); T qo = {n,i,0,0,1}, ql = {1,n,5,0,2}; I(f(&qo)); SP; IL(gb(&ql)); I(f(&o)); SP; IL(gb(&l)); }""")
P("copies", H + """var n : integer; va, va2 : a; vb, vb2 : b; vc : c; pa : ^a;
procedure val(o : a); begin o.x := o.x + 1; writeln(o.f) end; procedure valc(o : c; q : c); begin o.x := 100; q.put(5); writeln(o.g, ' ', q.f) end;
begin read(n); va.x := n; vb.x := n + 1; vb.y := 7; vc.x := n + 2; vc.y := 8; vc.z := 9; va2.x := 55; va2 := va; writeln(va2.f); va := vc; writeln(va.f, ' ', va.g, ' ', va.x); vb2 := vb; vb.x := 0; writeln(vb2.f); vb := vc; writeln(vb.f, ' ', vb.g, ' ', vb.y);
val(va); val(vb); val(vc); valc(vc, vc); writeln(vc.f); pa := nil; vc.z := 1; writeln(vc.f) end.
""", HC + """void oracle(void){ i32 n = in_i32(); T a = {n,0,0,0,0}, b = {wadd(n,1),7,0,0,1}, c = {wadd(n,2),8,9,0,2}; IL(f(&a)); a.x = c.x; I(f(&a)); SP; I(ga(&a)); SP; IL(a.x); IL(f(&b)); b.x = c.x; b.y = c.y; I(f(&b)); SP; I(gb(&b)); SP; IL(b.y);
T v = {wadd(a.x,1),0,0,0,0}; IL(f(&v)); v.x = wadd(b.x,1); IL(f(&v)); v.x = wadd(c.x,1); IL(f(&v)); T o = c, q = c; o.x = 100; q.x = 5; I(gb(&o)); SP; IL(f(&q)); IL(f(&c)); c.z = 1; IL(f(&c)); }""")
P("statics", """program p; type a = object x : integer; s : integer; static; y : char; t : longint; static; z : integer; procedure inc_; function sum : integer; end;
b = object(a) u : integer; s2 : integer; static; v : integer; procedure both(n : integer); end;
var n : integer; va, va2 : a; vb, vb2 : b;
procedure a.inc_; begin s := s + x; x := x + 1; t := t + z end; function a.sum : integer; begin sum := s + x + z end; procedure b.both(n : integer); begin s := s + n; s2 := s2 + v; self.s2 := s2 + u; y := 'q'; inc_ end;
begin read(n); a.s := n; a.t := 3; b.s2 := 4; va.x := 1; va.y := 'a'; va.z := 2; va2.x := 10; va2.y := 'b'; va2.z := 20; vb.x := 100; vb.y := 'c'; vb.z := 200; vb.u := 300; vb.v := 400; vb2 := vb; vb2.u := n;
va.inc_; va2.inc_; vb.both(n); vb2.both(1); writeln(a.s, ' ', b.s, ' ', va2.s, ' ', vb.t, ' ', b.s2); writeln(va.x, va.y, va.z, ' ', va2.x, va2.y, va2.z, ' ', vb.x, vb.y, vb.z, ' ', vb.u, ' ', vb.v, ' ', vb2.x, vb2.y, vb2.z, ' ', vb2.u); writeln(va.sum, ' ', vb.sum, ' ', sizeof(a):1) end.
""".replace(", ' ', sizeof(a):1", ""), """void oracle(void){ i32 n = in_i32(); i32 s = n, s2 = 4; i64 t = 3; s = wadd(s, 1); t += 2; s = wadd(s, 10); t += 20; s = wadd(s, n); s2 += 400; s2 += 300; s = wadd(s, 100); t += 200; s = wadd(s, 1); s2 += 400; s2 = wadd(s2, n); s = wadd(s, 100); t += 200;
I(s); SP; I(s); SP; I(s); SP; I(t); SP; IL(s2); I(2); o_chr('a'); I(2); SP; I(11); o_chr('b'); I(20); SP; I(101); o_chr('q'); I(200); SP; I(300); SP; I(400); SP; I(101); o_chr('q'); I(200); SP; IL(n); I(wadd(s, 4)); SP; IL(wadd(s, 301)); }""")
P("late_vtable", """program p; type a = object x : integer; c : char; function f : integer; procedure put(n : integer); end;
b = object(a) z : integer; function g : integer; virtual; function h : integer; end; c = object(b) w : integer; function g : integer; override; function f : integer; end; d = object(c) k : integer; function e : integer; virtual; end; e = object(d) function e : integer; override; function g : integer; override; end;
var n : integer; va : a; vb : b; vc : c; vd : d; ve : e; pa : ^a; pb : ^b;
function a.f : integer; begin f := x + 1 end; procedure a.put(n : integer); begin x := n; c := chr(n mod 10 + 48) end; function b.g : integer; begin g := f * 2 + z end; function b.h : integer; begin h := g + 5 end;
function c.f : integer; begin f := w + 1000 end; function c.g : integer; begin g := f * 3 + z end; function d.e : integer; begin e := k + g end; function e.e : integer; begin e := g - k end; function e.g : integer; begin g := k + x end;
procedure use(var o : b); begin writeln(o.g, ' ', o.h, ' ', o.f) end; procedure used(var o : d); begin writeln(o.e, ' ', o.g) end; procedure usea(var o : a; n : integer); begin o.put(n); writeln(o.f, o.c) end;
begin read(n); usea(va, n); usea(vb, n); usea(vc, n); usea(ve, n); vb.z := 3; vc.z := 5; vc.w := 6; vd.put(n); vd.z := 7; vd.w := 8; vd.k := 9; ve.z := 1; ve.w := 2; ve.k := 3; use(vb); use(vc); use(vd); use(ve); used(vd); used(ve); new(pb); pa := pb; pa^.put(n); pb^.z := 0; writeln(pa^.f, ' ', pb^.h) end.
""", """static void fa(i32 n) { I(wadd(n,1)); o_chr(n % 10 + 48); NL; } void oracle(void){ i32 n = in_range(0, 1000); fa(n); fa(n); fa(n); fa(n);
I((n+1)*2+3); SP; I((n+1)*2+8); SP; IL(n+1); I(1006*3+5); SP; I(1006*3+10); SP; IL(n+1); I(1008*3+7); SP; I(1008*3+12); SP; IL(n+1); I(3+n); SP; I(8+n); SP; IL(n+1); I(9+1008*3+7); SP; IL(1008*3+7); I(n); SP; IL(3+n); I(n+1); SP; IL((n+1)*2+5); }""")
P("fields", """program p; type s = string[5]; pc = ^c; rec = record i, j : integer end; a = object n : integer; r : real; t : s; function get : integer; virtual; end;
b = object(a) m : array [0..3] of integer; q : rec; c : char; st : set of 0..31; function get : integer; override; end; c = object(b) n : longint; next : pc; end;
var k, i : integer; va : a; vb : b; vc : c; function a.get : integer; begin get := n + length(t) end; function b.get : integer; var i : integer; begin i := n; i := i + m[i mod 4]; with q do i := i + j; if i in st then i := i - 1; get := i + ord(c) end;
begin read(k); read(i); va.n := k; va.r := 2.5; va.t := 'abc'; vb.n := i; vb.r := k; vb.t := 'xy'; vb.m[i] := k; vb.m[(i + 1) mod 4] := 1; vb.q.i := 3; vb.q.j := 4; vb.c := 'z'; vb.st := [1..3]; vc.n := 77; vc.t := 'hello'; vc.m[2] := k; vc.c := 'q'; vc.st := []; vc.next := nil;
writeln(va.get, ' ', trunc(va.r * 10), ' ', va.t); writeln(vb.n, ' ', vb.t, ' ', vb.q.i, vb.q.j, vb.c, ' ', vb.m[i], ' ', vb.m[(i + 1) mod 4]); writeln(vc.n, ' ', vc.t, ' ', vc.m[2], vc.c, ' ', vc.next = nil) end.
""".replace("vc.next = nil)", "ord(vc.next = nil))"), """void oracle(void){ i32 k = in_i32(); int i = in_pick(0, 3); I(wadd(k, 3)); SP; I(25); SP; o_txt("abc"); NL; I(i); SP; o_txt("xy"); SP; I(3); I(4); o_chr('z'); SP; I(k); SP; IL(1); I(77); SP; o_txt("hello"); SP; I(k); o_chr('q'); SP; IL(1); }""")
P("recursive", """program p; type pn = ^node; node = object v : integer; left, right : pn; function sum : integer; virtual; procedure add(n : integer); end; leaf = object(node) w : integer; function sum : integer; override; end;
var n, m : integer; root : pn; l : ^leaf;
function node.sum : integer; var s : integer; begin s := v; if left <> nil then s := s + left^.sum; if right <> nil then s := s + right^.sum; sum := s end;
procedure node.add(n : integer); begin v := v + n; if left <> nil then left^.add(n); if right <> nil then right^.add(n) end; function leaf.sum : integer; begin sum := w - v end;
begin read(n); read(m); new(root); root^.v := n; new(l); l^.v := 1; l^.w := m; l^.left := nil; l^.right := nil; root^.left := l; new(l); l^.v := 2; l^.w := 10; l^.left := nil; l^.right := nil; root^.right := l; writeln(root^.sum); root^.add(m); writeln(root^.sum, ' ', l^.v) end.
""", "void oracle(void){ i32 n = in_i32(), m = in_i32(); i32 s = wadd(wadd(n, wsub(m, 1)), 8); IL(s); s = wadd(wadd(wadd(n, m), wsub(m, wadd(1, m))), wsub(10, wadd(2, m))); I(s); SP; IL(wadd(2, m)); }")


# ---- random hierarchies -----------------------------------------------------------------------------------------------------------
class Cls:
    def __init__(self, i, base):
        self.i, self.base = i, base
        self.name = "c%d" % i
        self.own, self.fields = {}, []

    def chain(self):
        return (self.base.chain() if self.base else []) + [self]

    def all_fields(self):
        return [f for c in self.chain() for f in c.fields]

    def find(self, m):
        c = self
        while c:
            if m in c.own:
                return c
            c = c.base
        return None

    def is_virtual(self, m):
        return any(c.own.get(m) == "virtual" for c in self.chain())


def hier(k):
    r = random.Random(SEED * 7919 + k)
    cs = []
    for i in range(r.choice([3, 4, 4, 5])):
        deep = [c for c in cs if len(c.chain()) < 4]
        c = Cls(i, r.choice(deep + deep[-1:] * 2) if deep and i and r.random() < 0.9 else None)
        cs.append(c)
        for j in range(r.choice([0, 1, 1, 2, 2])):
            c.fields.append(("f%d%s" % (i, "abc"[j]), r.choice(["integer", "integer", "integer", "longint", "char"])))
        if i == 0 and not c.fields:
            c.fields.append(("f0a", "integer"))
        for m in range(4):
            z = r.random()
            if c.base and c.base.find("m%d" % m):
                if z < 0.5:
                    c.own["m%d" % m] = "override" if c.base.is_virtual("m%d" % m) else "plain"
            elif z < (0.6 if c.base is None else 0.4):
                c.own["m%d" % m] = "virtual" if r.random() < 0.65 else "plain"
    pas, cfun = [], []
    allf = [f for c in cs for f in c.fields]
    cT = "typedef struct { int k; %s } T;" % " ".join("i64 %s;" % f for f, t in allf)
    decl = []
    for c in cs:
        lines = ["%s : %s" % f for f in c.fields]
        order = sorted(c.own)
        r.shuffle(order)
        decl.append("%s = object%s %s %s end;" % (c.name, "(%s)" % c.base.name if c.base else "", " ".join(l + ";" for l in lines),
                    " ".join("function %s(n : integer) : integer;%s" % (m, {"virtual": " virtual;", "override": " override;", "plain": ""}[c.own[m]]) for m in order)))

    def call(cls, m, obj, arg):
        """C text of the call through a variable of class cls"""
        if cls.is_virtual(m):
            e = "0"
            for d in reversed(cs):
                if cls in d.chain():
                    e = "%s->k == %d ? %s_%s(%s, %s) : %s" % (obj, d.i, d.find(m).name, m, obj, arg, e)
            return "(%s)" % e
        return "%s_%s(%s, %s)" % (cls.find(m).name, m, obj, arg)
    impl = []
    for c in cs:
        for m in sorted(c.own):
            ints = [f for f, t in c.all_fields() if t == "integer"]
            st, cst = [], []
            ex, cex = "n", "n"
            for f in r.sample(ints, min(len(ints), 2)):
                ex, cex = ex + " + " + r.choice(["", "self."]) + f, "wadd(%s, (i32)t->%s)" % (cex, f)
            if ints and r.random() < 0.5:
                f, v = r.choice(ints), r.randint(1, 9)
                st.append("%s := %s + %d" % (f, f, v))
                cst.append("t->%s = wadd((i32)t->%s, %d);" % (f, f, v))
            avail = [x for x in ["m0", "m1", "m2", "m3"] if x < m and c.find(x)]
            if avail:
                x, v = r.choice(avail), r.randint(1, 9)
                st.append("%s := %s + %s%s(%d)" % (m, ex, r.choice(["", "self."]), x, v))
                cst.append("i32 u = %s; return wadd(u, %s);" % (cex, call(c, x, "t", str(v))))
            else:
                v = r.randint(1, 99)
                st.append("%s := %s + %d" % (m, ex, v))
                cst.append("return wadd(%s, %d);" % (cex, v))
            impl.append("function %s.%s(n : integer) : integer; begin %s end;" % (c.name, m, "; ".join(st)))
            cfun.append("static i32 %s_%s(T* t, i32 n) { %s }" % (c.name, m, " ".join(cst)))
    protos = ["static i32 %s_%s(T* t, i32 n);" % (c.name, m) for c in cs for m in sorted(c.own)]
    use, cuse = [], []
    for c in cs:
        ms = [m for m in ["m0", "m1", "m2", "m3"] if c.find(m)]
        if ms:
            use.append("procedure u%d(var o : %s; n : integer); begin %s end;" % (c.i, c.name, "; ".join("writeln(o.%s(n))" % m for m in ms)))
            cuse.append("static void u%d(T* o, i32 n) { %s }" % (c.i, " ".join("IL(%s);" % call(c, m, "o", "n") for m in ms)))
    body, cb = [], []
    vars_ = []
    for c in cs:
        for w in ("v%d", "h%d"):
            v = w % c.i
            heap = w[0] == "h"
            vars_.append("%s : %s%s;" % (v, "^" if heap else "", c.name))
            if heap:
                body.append("new(%s)" % v)
            cb.append("T %s; %s.k = %d;" % (v, v, c.i))
            for j, (f, t) in enumerate(c.all_fields()):
                ref = v + ("^" if heap else "") + "." + f
                if t == "char":
                    body.append("%s := '%s'" % (ref, "xyzuvw"[j % 6]))
                    cb.append("%s.%s = '%s';" % (v, f, "xyzuvw"[j % 6]))
                else:
                    x = r.choice(["n", "m", str(r.randint(1, 99))])
                    body.append("%s := %s" % (ref, x))
                    cb.append("%s.%s = %s;" % (v, f, x))
            for b in r.sample(c.chain(), min(2, len(c.chain()))):
                if any(u.startswith("procedure u%d(" % b.i) for u in use):
                    x = r.choice(["n", "m", str(r.randint(1, 99))])
                    body.append("u%d(%s, %s)" % (b.i, v + ("^" if heap else ""), x))
                    cb.append("u%d(&%s, %s);" % (b.i, v, x))
            ms = [m for m in ["m0", "m1", "m2", "m3"] if c.find(m)]
            for m in r.sample(ms, min(2, len(ms))):
                body.append("writeln(%s.%s(m))" % (v + ("^" if heap else ""), m))
                cb.append("IL(%s);" % call(c, m, "(&%s)" % v, "m"))
            for (f, t) in c.all_fields():
                body.append("writeln(%s.%s)" % (v + ("^" if heap else ""), f))
                cb.append("o_chr(%s.%s); NL;" % (v, f) if t == "char" else "IL(%s.%s);" % (v, f))
    pas = "program p; type %s\nvar n, m : integer; %s\n%s\n%s\nbegin read(n); read(m);\n%s end.\n" % ("\n".join(decl), " ".join(vars_), "\n".join(impl), "\n".join(use), ";\n".join(body))
    return pas, cT + "\n" + "\n".join(protos + cfun + cuse) + "\nvoid oracle(void){ i32 n = in_i32(), m = in_i32();\n%s }" % "\n".join(cb)


for k in range(120 if THOROUGH else 40):
    P("hier_%d" % k, *hier(k))

if __name__ == "__main__":
    run_tv("C21", progs, [["-O0"], ["-O2"]] + ([["-O1", "-m32"]] if THOROUGH else []), max_time=30,
           bounds={"programs": "%d: chains and trees of classes to depth 4 with up to 4 methods and 10 fields, every integer input value" % len(progs)},
           explanation="the compiled program is executed symbolically and its complete output compared with C structs and an explicit dispatch on the class an object was created as")
