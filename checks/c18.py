"""C18: expressions group with Pascal precedence and association, statements nest as written."""
from common import *
import itertools
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog(name, pas, orc, **kw))


MUL, ADD = ("*", "div", "mod", "and", "shl", "shr"), ("+", "-", "or", "xor")
OPS = MUL + ADD
CI = {"*": "wmul(%s,%s)", "div": "(%s/%s)", "mod": "(%s%%%s)", "and": "(%s&%s)", "shl": "ishl(%s,%s)", "shr": "ishr(%s,%s)", "+": "wadd(%s,%s)", "-": "wsub(%s,%s)", "or": "(%s|%s)", "xor": "(%s^%s)",
      "B+": "(%s|%s)", "band": "(%s&%s)", "bor": "(%s|%s)", "bxor": "(%s^%s)", "band_then": "(%s&%s)", "bor_else": "(%s|%s)"}


def group(atoms, ops, level, table, pre=""):
    """the grouping rule, stated on its own: highest level first, left to right within a level"""
    atoms, ops = list(atoms), list(ops)
    for lv in (40, 10):
        i = 0
        while i < len(ops):
            if level(ops[i]) == lv:
                atoms[i:i + 2] = [table[pre + ops[i]] % (atoms[i], atoms[i + 1])]
                del ops[i]
            else:
                i += 1
    return atoms[0]


lev = lambda o: 40 if o in MUL + ("and_then",) else 10
INH = "program p; var a, b, c, d : integer; begin read(a); read(b); read(c); read(d);\n"
INO = "void oracle(void){ i32 a = in_range(-30000, 30000), b = in_range(1, 7), c = in_range(1, 7), d = in_range(1, 7);\n"
for o1 in OPS:
    ls, cs = [], []
    for o2 in OPS:
        ls.append("a %s b %s c" % (o1, o2)); cs.append(group("abc", [o1, o2], lev, CI))
        for o3 in OPS:
            ls.append("a %s b %s c %s d" % (o1, o2, o3)); cs.append(group("abcd", [o1, o2, o3], lev, CI))
    # a quotient may only be divided by what is not zero: the right operands are the variables themselves
    keep = [(l, c) for l, c in zip(ls, cs)]
    for part in range(0, len(keep), 37):
        k = keep[part:part + 37]
        P("int_%s_%d" % ({"*": "mul", "+": "add", "-": "sub"}.get(o1, o1), part // 37), INH + "".join(" writeln(%s);\n" % l for l, c in k) + "end.\n", INO + "".join(" IL(%s);\n" % c for l, c in k) + "}")
# boolean operators with not in every position
BO = ("and", "or", "xor", "and_then", "or_else")
bl = []
for o1 in BO:
    for o2 in BO:
        for n in range(8):
            nm = [("not " if n >> i & 1 else "") + v for i, v in enumerate("pqr")]
            cc = [("(!%s)" if n >> i & 1 else "%s") % v for i, v in enumerate("pqr")]
            bl.append(("%s %s %s %s %s" % (nm[0], o1, nm[1], o2, nm[2]), group(cc, [o1, o2], lev, CI, "b")))
for n in range(0, len(bl), 50):
    P("bool_%d" % (n // 50), "program p; var p, q, r : boolean; i, j, k : integer; begin read(i); read(j); read(k); p := i > 0; q := j > 0; r := k > 0;\n" + "".join(" writeln(ord(%s):1);\n" % x[0] for x in bl[n:n + 50]) + "end.\n",
      "void oracle(void){ int p = in_pick(0,1), q = in_pick(0,1), r = in_pick(0,1);\n" + "".join(" o_int(%s,1); NL;\n" % x[1] for x in bl[n:n + 50]) + "}")
REL = {"=": "==", "<>": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">="}
rl = []
for r_, cr in REL.items():
    for o in OPS:
        e2 = CI[o] % ("a", "b")
        f2 = CI[o] % ("c", "d")
        rl += [("a %s b %s c" % (o, r_), "(%s %s c)" % (e2, cr)), ("c %s a %s b" % (r_, o), "(c %s %s)" % (cr, e2)), ("a %s b %s c %s d" % (o, r_, o), "(%s %s %s)" % (e2, cr, f2))]
    rl += [("(a %s b) or (c %s d) and (a > 0)" % (r_, r_), "((a %s b) | ((c %s d) & (a > 0)))" % (cr, cr)), ("not (a %s b) and (c > d)" % r_, "(!(a %s b) & (c > d))" % cr), ("(a %s b) = (c %s d)" % (r_, r_), "((a %s b) == (c %s d))" % (cr, cr)), ("not not (a %s b)" % r_, "(a %s b)" % cr)]
for n in range(0, len(rl), 51):
    P("rel_%d" % (n // 51), INH + "".join(" writeln(ord(%s):1);\n" % x[0] for x in rl[n:n + 51]) + "end.\n", INO + "".join(" o_int(%s,1); NL;\n" % x[1] for x in rl[n:n + 51]) + "}")
# not, signs, powers, parentheses
ol = [("not a + b", "wadd(~a,b)"), ("not a and b", "(~a&b)"), ("a + not b", "wadd(a,~b)"), ("a * not b * c", "wmul(wmul(a,~b),c)"), ("not (a + b)", "(~wadd(a,b))"), ("not not a", "a"), ("-a + b", "wadd(wneg(a),b)"), ("-a - b", "wsub(wneg(a),b)"), ("-a * b", "wmul(wneg(a),b)"), ("-a div b", "(-a/b)"),
      ("-(a + b)", "wneg(wadd(a,b))"), ("-(a) + b", "wadd(wneg(a),b)"), ("a - (b - c)", "(a-(b-c))"), ("a - (b - c) - d", "(a-(b-c)-d)"), ("(a - b) * c", "((a-b)*c)"), ("a - b * (c - d)", "(a-b*(c-d))"), ("a div (b * c)", "(a/(b*c))"), ("a div b div c", "(a/b/c)"), ("a mod b mod c", "(a%b%c)"), ("((a))", "a"), ("(((a + b))) * ((c))", "((a+b)*c)"),
      ("a + b pow 2", "(a+b*b)"), ("b pow 2 * c", "(b*b*c)"), ("c * b pow 2", "(c*b*b)"), ("a - b pow 2 - c", "(a-b*b-c)"), ("b * c pow 2 + d", "(b*c*c+d)"), ("d div b pow 2", "(d/(b*b))"), ("(b + c) pow 2", "((b+c)*(b+c))"), ("a + +b", "(a+b)"), ("+a - b", "(a-b)"), ("b shl 2 + 1", "((b<<2)+1)"), ("1 + b shl 2", "(1+(b<<2))"), ("a and 15 + 1", "((a&15)+1)"), ("a or 1 and b", "(a|(1&b))"), ("a + b and 3", "(a+(b&3))"),
      ("abs(a) - abs(b) * 2", "((a<0?-a:a)-b*2)"), ("sqr(b) + c * sqr(c)", "(b*b+c*c*c)"), ("ord(odd(b)) + 2 * c", "((b&1)+2*c)"), ("length('ab') * b - 1", "(2*b-1)"), ("trunc(2.5) * b + c", "(2*b+c)"), ("max(a, b) - min(b, c) * d", "((a>b?a:b)-(b<c?b:c)*d)"), ("succ(b) * pred(c) - d", "((b+1)*(c-1)-d)")]
P("unary", INH + "".join(" writeln(%s);\n" % x[0] for x in ol) + "end.\n", INO + "".join(" IL(%s);\n" % x[1] for x in ol) + "}")
# designators and calls bind tighter than every operator
dl = [("v[b] * c - d", "(v[b]*c-d)"), ("v[b + 1] + c * v[c]", "(v[b+1]+c*v[c])"), ("v[v[1] + b - 1]", "v[v[1]+b-1]"), ("r.x - r.y * r.x", "(r[0]-r[1]*r[0])"), ("h^.x * 2 + h^.y", "(r[0]*2+r[1])"), ("-h^.x + 1", "(-r[0]+1)"), ("f(b) + f(c) * 2", "(f(b)+f(c)*2)"), ("f(b - c) - f(c - b) - d", "(f(b-c)-f(c-b)-d)"), ("f(f(b) * 2) * 3", "(f(f(b)*2)*3)"), ("-f(b) + v[f(0)]", "(-f(b)+v[f(0)])"),
      ("q[b mod 2].x - q[1].y * 2", "(b % 2 ? 4 : 3) - 15 * 2"), ("h^.x - r.x + v[2] * f(d)", "(r[0]-r[0]+v[2]*f(d))"), ("not f(b) + 1", "(~f(b)+1)"), ("m[b, c mod 2] - m[1, 1] * d", "(b*10+c%2-11*d)"), ("m[1][0] + m[2, 1] - m[1, 1] * d", "(10+21-11*d)"), ("n^^ - 1 * d", "(9-d)")]
P("designators", """program p; type rec = record x, y : integer end; var a, b, c, d, i, j : integer; v : array [0..20] of integer; r : rec; h : ^rec; q : array [0..1] of rec; m : array [0..8, 0..1] of integer; n : ^pi_; o : pi_;
function f(n : integer) : integer; begin f := n * 2 + 1 end;
begin read(b); read(c); read(d); for i := 0 to 20 do v[i] := i; r.x := b; r.y := c; new(h); h^ := r; q[0].x := 3; q[1].x := 4; q[1].y := 15; for i := 0 to 8 do for j := 0 to 1 do m[i, j] := i * 10 + j; new(o); new(n); n^ := o; n^^ := 9;
""".replace("program p; type", "program p; type pi_ = ^integer;") + "".join(" writeln(%s);\n" % x[0] for x in dl) + "end.\n",
  "static int f(int n) { return n * 2 + 1; }\nvoid oracle(void){ int b = in_range(1, 7), c = in_range(1, 7), d = in_range(1, 7), v[21], r[2] = { b, c }; for (int i = 0; i < 21; i++) v[i] = i;\n" + "".join(" IL(%s);\n" % x[1] for x in dl) + "}")
# sets, strings, reals, mixed relations
sl = [("s + t * u", "s|(t&u)"), ("s - t + u", "(s&~t)|u"), ("s - t - u", "s&~t&~u"), ("s * t - u", "(s&t)&~u"), ("s - t * u", "s&~(t&u)"), ("s + t - u", "(s|t)&~u"), ("s >< t * u", "(s^t)&u"), ("s - (t - u)", "s&~(t&~u)"), ("(s + t) * u", "(s|t)&u"), ("s + t + [1]", "s|t|2"), ("[2] + s * [1, 3]", "4|(s&10)")]
pas = "program p; type st = set of 0..4; var s, t, u : st; i, j, k : integer;\nprocedure w(x : st); var i : integer; begin for i := 0 to 4 do write(ord(i in x):1); writeln end;\nfunction mk(n : integer) : st; var i : integer; r : st; begin r := []; for i := 0 to 4 do if odd(n shr i) then r := r + [i]; mk := r end;\nbegin read(i); read(j); read(k); s := mk(i); t := mk(j); u := mk(k);\n"
orc = "static void w(int x) { for (int i = 0; i < 5; i++) o_int((x >> i) & 1,1); NL; }\nvoid oracle(void){ int s = in_pick(0,31), t = in_pick(12,13), u = in_pick(9,10);\n"
rs = [("s + t = t + u", "(s|t)==(t|u)"), ("s * t <= u", "((s&t)&~u)==0"), ("s <= t + u", "(s&~(t|u))==0"), ("i in s + t", "0"), ("3 in s * t", "((s&t)>>3)&1"), ("not (2 in s - t)", "!(((s&~t)>>2)&1)"), ("(2 in s) and (3 in t) or (1 in u)", "((s>>2)&1&(t>>3))|((u>>1)&1)"), ("s - t <> []", "(s&~t)!=0"), ("1 + 1 in s", "(s>>2)&1"), ("k - k in s", "s&1"), ("j div 4 in s", "(s>>3)&1")]
rs = [x for x in rs if x[1] != "0"]
P("sets", pas + "".join(" w(%s);\n" % x[0] for x in sl) + "".join(" writeln(ord(%s):1);\n" % x[0] for x in rs) + "end.\n", orc + "".join(" w(%s);\n" % x[1] for x in sl) + "".join(" o_int(%s,1); NL;\n" % x[1] for x in rs) + "}")
xl = [("x + y * z", "x+y*z"), ("x - y - z", "x-y-z"), ("x / y * z", "x/y*z"), ("x / y / z", "x/y/z"), ("x * y / z", "x*y/z"), ("x - y / z", "x-y/z"), ("(x - y) / z", "(x-y)/z"), ("x + i * j", "x+i*j"), ("i div j + x", "i/j+x"), ("i / j * x", "(double)i/j*x"), ("x - i - y", "x-i-y"), ("-x + y", "-x+y"), ("-x * y", "-x*y"), ("x - -y", "x+y"), ("abs(x) * y - z", "__builtin_fabs(x)*y-z"), ("x * x - y * y", "x*x-y*y"), ("i * j * x", "(i*j)*x"), ("x * i * j", "x*i*j")]
P("reals", "program p; var x, y, z : real; i, j : integer; begin read(x); read(y); read(z); read(i); read(j);\n" + "".join(" writeln(%s);\n" % x[0] for x in xl) + " writeln(ord(x + y < z * x):1, ord(x < y + z):1, ord(i * x > y - z):1) end.\n",
  "void oracle(void){ double x = in_f64(), y = in_f64(), z = in_f64(); int i = in_range(-100, 100), j = in_range(1, 7); ASSUME(x == x); ASSUME(y == y); ASSUME(z == z);\n" + "".join(" RL(%s);\n" % x[1] for x in xl) + " o_int(x + y < z * x,1); o_int(x < y + z,1); o_int(i * x > y - z,1); NL; }", max_time=60)
P("strings", "program p; var s, t : string; c : char; begin read(c); s := 'a' + c; t := 'b'; writeln(s + t + c); writeln(ord(s + t = t + s):1, ord(s + c < 'az' + t):1, ord('a' + c = s):1, ord(s = 'a' + c):1); writeln(length(s + t) * 2 + 1) end.\n",
  "void oracle(void){ int c = in_chr(); o_chr('a'); o_chr(c); o_chr('b'); o_chr(c); NL; o_int(0,1); o_int(c < 'z' || (c == 'z' && c < 'b'),1); o_int(1,1); o_int(1,1); NL; IL(7); }")
# ---- statements --------------------------------------------------------------------------------------------------------------
# every shape of nested if/else, loop, with and case up to depth 3 without begin-end, leaves leave a trace.
# C has the same dangling-else rule, and the trees are built so that the text denotes them.
cnt = [0]


def leaf():
    cnt[0] += 1
    c = chr(96 + cnt[0])
    return ("write('%s')" % c, "o_chr('%s');" % c)


def closed(t):
    # no else may follow a statement that ends in an if without else
    return t[0] in ("leaf", "block", "repeat", "case") or t[0] == "ife" and closed(t[2]) or t[0] in ("for", "while", "with") and closed(t[1])


def shapes(d):
    if d == 0:
        yield ("leaf",)
        return
    subs = list(shapes(d - 1)) if d == 1 else list(shapes(d - 1))
    lf = ("leaf",)
    for s in subs:
        yield ("if", s)
        yield ("ife", None, lf, s)
        if closed(s):
            yield ("ife", None, s, lf)
        yield ("for", s)
        yield ("while", s)
        yield ("with", s)
        yield ("repeat", s)
        yield ("case", s)
        yield ("block", s)


def mk(t, dep=0):
    k = t[0]
    v = "pqr"[dep % 3]
    if k == "leaf":
        return leaf()
    if k == "if":
        a, b = mk(t[1], dep + 1)
        return ("if %s then %s" % (v, a), "if (%s) %s" % (v, b))
    if k == "ife":
        a, b = mk(t[2], dep + 1)
        c, d = mk(t[3], dep + 1)
        return ("if %s then %s else %s" % (v, a, c), "if (%s) %s else %s" % (v, b, d))
    a, b = mk(t[1], dep + 1)
    i = "ijk"[dep % 3]
    if k == "for":
        return ("for %s := 1 to 2 do %s" % (i, a), "for (int %s = 1; %s <= 2; %s++) %s" % (i, i, i, b))
    if k == "while":
        return ("while n%d.z > 0 do with n%d do %s" % (dep, dep, a) if False else "while dec(m) do %s" % a, "while (m-- > 0) %s" % b)
    if k == "with":
        return ("with n do %s" % a, b)
    if k == "repeat":
        return ("repeat %s until %s" % (a, v), "do { %s } while (!(%s));" % (b, v)) if False else ("repeat %s until true" % a, "{ %s }" % b)
    if k == "case":
        return ("case ord(%s) of 1: %s; 0: write('-') end" % (v, a), "{ if (%s) { %s } else o_chr('-'); }" % (v, b))
    return ("begin %s end" % a, "{ %s }" % b)


def fixw(s):
    return s.replace("dec(m)", "more")


ST = [s for d in (1, 2) for s in shapes(d)] + (list(shapes(3)) if THOROUGH else list(shapes(3))[::3])
PERS = 12
for n in range(0, len(ST), PERS):
    pl, ol_ = [], []
    for s in ST[n:n + PERS]:
        cnt[0] = 0
        a, b = mk(s)
        pl.append(" m := 2; %s; writeln;\n" % fixw(a))
        ol_.append(" m = 2; %s NL;\n" % b)
    P("stmt_%d" % (n // PERS), "program p; type rec = record z : integer end; var p, q, r : boolean; a, b, c, i, j, k, m : integer; n : rec;\nfunction more : boolean; begin more := m > 0; m := m - 1 end;\nbegin read(a); read(b); read(c); p := a > 0; q := b > 0; r := c > 0;\n" + "".join(pl) + "end.\n",
      "void oracle(void){ int p = in_pick(0,1), q = in_pick(0,1), r = in_pick(0,1), m;\n" + "".join(ol_) + "}")
# statement sequences: separators, empty statements, the extent of a branch or body
P("sequence", """program p; var p, q : boolean; a, b, i : integer; begin read(a); read(b); p := a > 0; q := b > 0;
 if p then write('a'); write('b'); if p then begin end else write('c'); ; ; if q then begin write('d'); ; write('e') end; write('f');; writeln;
 for i := 1 to 2 do write('g'); write('h'); i := 0; while i < 2 do i := i + 1; write(i); repeat i := i + 1; write('j'); until i > 3; write('k'); writeln;
 if p then if q then else write('l') else write('m'); if p then else write('n'); if q then; write('o'); begin write('p'); begin write('q') end; write('r') end; writeln;
 for i := 3 downto 1 do begin write(i); if i = 2 then write('x') else begin end; end; repeat until true; while false do; for i := 1 to 3 do; begin end; begin ; ; end; case a of 1: ; 0: write('z'); end; writeln;
 case a of 0: if q then write('s') else write('t'); 1: begin if q then write('u'); write('v') end end; write('w'); case b of 0, 1: case a of 0: write('0'); 1: write('1') end; 2: write('2') end; writeln
end.
""", """void oracle(void){ int p = in_pick(0,1), q = in_pick(0,1);
 if (p) o_chr('a'); o_chr('b'); if (!p) o_chr('c'); if (q) o_txt("de"); o_chr('f'); NL; o_txt("ggh"); I(2); o_txt("jjk"); NL; if (p) { if (!q) o_chr('l'); } else o_chr('m'); if (!p) o_chr('n'); o_chr('o'); o_txt("pqr"); NL;
 I(3); I(2); o_chr('x'); I(1); if (!p) o_chr('z'); NL; if (!p) o_chr(q ? 's' : 't'); else { if (q) o_chr('u'); o_chr('v'); } o_chr('w'); o_chr(p ? '1' : '0'); NL; }""")
P("layout", """PROGRAM   P  ( input ,output ) ;VAR A,b:INTEGER;r:record x,Y:integer End;
Begin{c}READ(a);Read ( B );
  IF a>b{x}THEN(*y*)WRITELN(a-b)else
  writeLN(B-A);r.X:=a;R.y:=b;writeln(r.x-R.Y);If(a)>(b)then write(1)ELSE write(2);
  with r do begin x:=x+1;y:=Y*2 end;writeln(r.x,' ',r.y)
END .
""", "void oracle(void){ i32 a = in_range(-9999,9999), b = in_range(-9999,9999); if (a > b) IL(a-b); else IL(b-a); IL(a-b); I(a > b ? 1 : 2); I(a+1); SP; IL(b*2); }")
# ---- random deep nests -----------------------------------------------------------------------------------------------------------
g = Gen(RND, [("i32", "a", "a"), ("i32", "b", "b"), ("i64", "l", "l"), ("bool", "p", "p"), ("bool", "q", "q")], maxhard=1)
for k in range(40 if THOROUGH else 10):
    bs = [g.bool(RND.choice([3, 4, 5])) for _ in range(8)]
    P("random_%d" % k, "program p; var a, b : integer; l : longint; p, q : boolean; i, j : integer; begin read(a); read(b); read(l); read(i); read(j); p := i > 0; q := j > 0;\n" + "".join(" writeln(ord(%s):1);\n" % x.p for x in bs) + "end.\n",
      "void oracle(void){ i32 a = in_range(-1000, 1000), b = in_range(-1000, 1000); i64 l = in_range64(-30000, 30000); int p = in_pick(0,1), q = in_pick(0,1);\n ASSUME(b != 0); ASSUME(a != 0);\n" + "".join(" o_int(%s,1); NL;\n" % x.c for x in bs) + "}")
P("parameterless calls end where the statement ends", "program p; var a, b, i : integer; procedure q; begin write('q') end; function f : integer; begin f := 5 end; begin read(a); read(b); if a < b then writeln else write('ge'); if a < b then write('lt') else writeln; "
  "if a > 3 then if b > 3 then writeln else write('b') else writeln; if a = b then q else q; repeat i := i + 1; writeln until i >= 2; repeat q until true; case a < b of true: writeln; false: q end; if f < a then q else writeln; while i < 3 do begin i := i + f; writeln end; for i := 1 to 2 do writeln; writeln end.",
  "void oracle(void) { i32 a = in_i32(), b = in_i32(); if (a < b) { NL; } else o_txt(\"ge\"); if (a < b) o_txt(\"lt\"); else NL; if (a > 3) { if (b > 3) NL; else o_txt(\"b\"); } else NL; o_txt(\"q\"); NL; NL; o_txt(\"q\"); if (a < b) NL; else o_txt(\"q\"); if (5 < a) o_txt(\"q\"); else NL; NL; NL; NL; NL; }")
P("input statements end where the statement ends", "program p; var c, d : char; begin read(c); if c < 'a' then readln else read(d); if c < 'a' then write('l') else readln; repeat readln until eof; write('.') end.",
  "void oracle(void) { unsigned char T[1]; in_text(T,1); ASSUME(T[0] != 10); in_textc(\"xy\\nz\\n\"); if (T[0] < 'a') o_txt(\"l\"); o_txt(\".\"); }", raw=True)

if __name__ == "__main__":
    run_tv("C18", progs, [["-O0"]] + ([["-O2"], ["-O1", "-m32"]] if THOROUGH else []), max_time=30,
           bounds={"integer operators": "all pairs and triples of 10 operators on symbolic operands", "boolean": "all pairs of 5 operators with not in every position", "relations": "6 relations x 10 operators on either side",
                   "statements": "if, if-else, for, while, with, repeat, case and begin-end nested to depth 3 without begin-end (depth 3: %d shapes)" % (len(ST) - 90), "random": "boolean/relational/integer mixes to depth 5"},
           explanation="the compiled program is executed symbolically and its complete output compared with the explicitly grouped expression or the nested C statement")
