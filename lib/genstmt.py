"""Random structured statements rendered as Pascal and C.  Every program keeps a trace accumulator t, so the exact
sequence of executed statements is visible in the output."""
import random
from gen import *


class StmtGen:
    def __init__(self, rnd, ivars, maxloop=3):
        """ivars: names of plain integer variables, the same in Pascal and C; loop counters are i1..i9, w1..w9"""
        self.r = rnd
        self.iv = ivars
        self.nctr = 0
        self.ntag = 0
        self.maxloop = maxloop
        self.loopvars = []
        self.free = ["i%d" % k for k in range(1, 10)]

    def tag(self):
        self.ntag += 1
        return self.ntag

    def rd(self):
        return self.r.choice(self.iv + self.loopvars + self.iv)

    def atom(self):
        return self.rd() if self.r.random() < 0.75 else str(self.r.choice([-2, -1, 0, 1, 2, 3, 5]))

    def cond(self, d=1):
        k = self.r.random()
        if d and k < 0.2:
            a, ac = self.cond(0)
            b, bc = self.cond(0)
            op, co = self.r.choice([("and", "&"), ("or", "|"), ("and_then", "&&"), ("or_else", "||")])
            return "(%s) %s (%s)" % (a, op, b), "((%s) %s (%s))" % (ac, co, bc)
        if k < 0.28:
            a, ac = self.cond(0)
            return "not (%s)" % a, "(!(%s))" % ac
        a, b = self.rd(), self.atom()
        op, co = self.r.choice([("<", "<"), ("<=", "<="), (">", ">"), (">=", ">="), ("=", "=="), ("<>", "!=")])
        b = b if not b.startswith("-") else "(%s)" % b
        return "%s %s %s" % (a, op, b), "(%s %s %s)" % (a, co, b)

    def simple(self):
        k = self.r.random()
        if k < 0.6 or not self.iv:
            g = self.tag()
            if self.r.random() < 0.4:
                v = self.rd()
                return "t := t * 31 + %d + %s" % (g, v), "t = wadd(wadd(wmul(t, 31), %d), %s);" % (g, v)
            return "t := t * 31 + %d" % g, "t = wadd(wmul(t, 31), %d);" % g
        v = self.r.choice(self.iv)
        a = self.rd()
        op, f = self.r.choice([("+", "wadd"), ("-", "wsub")])
        k = self.r.choice([1, 2, 3])
        return "%s := %s %s %d" % (v, a, op, k), "%s = %s(%s, %d);" % (v, f, a, k)

    def block(self, d, n=None):
        """begin .. end with n statements"""
        n = n or self.r.randint(1, 3)
        ss = [self.stmt(d) for _ in range(n)]
        semi = ";" if self.r.random() < 0.3 else ""
        return "begin " + "; ".join(s[0] for s in ss) + semi + " end", "{ " + " ".join(s[1] for s in ss) + " }"

    def stmt(self, d):
        if d <= 0:
            return self.simple()
        k = self.r.random()
        if k < 0.2:
            return self.simple()
        if k < 0.3:
            return self.block(d - 1)
        if k < 0.52:
            return self.if_(d)
        if k < 0.66:
            return self.case_(d)
        if k < 0.82 and self.free:
            return self.for_(d)
        if k < 0.92:
            return self.while_(d)
        return self.repeat_(d)

    def if_(self, d):
        p, c = self.cond()
        if self.r.random() < 0.4:
            s = self.stmt(d - 1)
            return "if %s then %s" % (p, s[0]), "if (%s) { %s }" % (c, s[1])
        a = self.closed(d - 1)
        b = self.stmt(d - 1)
        return "if %s then %s else %s" % (p, a[0], b[0]), "if (%s) { %s } else { %s }" % (c, a[1], b[1])

    def closed(self, d):
        """a statement that cannot swallow a following else, or a nested if whose else is complete"""
        k = self.r.random()
        if k < 0.5:
            return self.block(d)
        if k < 0.7 and d > 0:
            p, c = self.cond()
            a, b = self.closed(d - 1), self.closed(d - 1)
            return "if %s then %s else %s" % (p, a[0], b[0]), "if (%s) { %s } else { %s }" % (c, a[1], b[1])
        if k < 0.8 and d > 0:
            return self.case_(d)
        if k < 0.9 and d > 0:
            return self.repeat_(d)
        return self.simple()

    def case_(self, d):
        v = self.rd()
        vals = list(range(-3, 8))
        self.r.shuffle(vals)
        arms_p, arms_c = [], []
        for _ in range(self.r.randint(1, 4)):
            if not vals:
                break
            lab = []
            for _ in range(self.r.randint(1, 2)):
                if vals:
                    lab.append(vals.pop())
            s = self.stmt(d - 1)
            arms_p.append("%s: %s" % (", ".join(map(str, lab)), s[0]))
            arms_c.append(" ".join("case %d:" % x for x in lab) + " { %s } break;" % s[1])
        if self.r.random() < 0.3:
            lo = self.r.choice([8, 9, -40])
            hi = lo + self.r.choice([1, 5, 31, 32, 33, 100]) if lo > 0 else lo + self.r.choice([1, 5, 32, 36])
            s = self.stmt(d - 1)
            arms_p.append("%d..%d: %s" % (lo, hi, s[0]))
            arms_c.append("case %d ... %d: { %s } break;" % (lo, hi, s[1]))
        p = "case %s of %s" % (v, "; ".join(arms_p))
        c = "switch (%s) { %s" % (v, " ".join(arms_c))
        if self.r.random() < 0.6:
            s = self.stmt(d - 1)
            p += "; %s %s" % (self.r.choice(["otherwise", "else"]), s[0])
            c += " default: { %s } break;" % s[1]
        if self.r.random() < 0.5:
            p += ";"
        return p + " end", c + " }"

    def for_(self, d):
        v = self.free.pop(0)
        lo = self.r.randint(-2, 2)
        hi = lo + self.r.randint(-1, self.maxloop - 1)
        down = self.r.random() < 0.4
        self.loopvars.append(v)
        s = self.stmt(d - 1)
        self.loopvars.pop()
        self.free.insert(0, v)
        w = "n%s" % v
        if down:
            return "for %s := %d downto %d do %s" % (v, hi, lo, s[0]), "for (i32 %s = %d; %s >= %d; %s--) { i32 %s = %s; %s }" % (w, hi, w, lo, w, v, w, s[1])
        return "for %s := %d to %d do %s" % (v, lo, hi, s[0]), "for (i32 %s = %d; %s <= %d; %s++) { i32 %s = %s; %s }" % (w, lo, w, hi, w, v, w, s[1])

    def while_(self, d):
        self.nctr += 1
        w = "w%d" % self.nctr
        p, c = self.cond()
        s = self.stmt(d - 1)
        n = self.r.randint(1, self.maxloop)
        return ("begin %s := 0; while (%s < %d) and (%s) do begin %s := %s + 1; %s end end" % (w, w, n, p, w, w, s[0]),
                "{ i32 %s = 0; while ((%s < %d) & (%s)) { %s++; %s } }" % (w, w, n, c, w, s[1]))

    def repeat_(self, d):
        self.nctr += 1
        w = "w%d" % self.nctr
        p, c = self.cond()
        ss = [self.stmt(d - 1) for _ in range(self.r.randint(1, 2))]
        n = self.r.randint(1, self.maxloop)
        return ("begin %s := 0; repeat %s := %s + 1; %s until (%s >= %d) or (%s) end" % (w, w, w, "; ".join(s[0] for s in ss), w, n, p),
                "{ i32 %s = 0; do { %s++; %s } while (!((%s >= %d) | (%s))); }" % (w, w, " ".join(s[1] for s in ss), w, n, c))


def random_stmt_prog(name, rnd, Prog, depth=3, nstmt=4, nin=3, lo=-4, hi=9, **kw):
    iv = ["a", "b", "c"][:nin]
    g = StmtGen(rnd, iv)
    ss = [g.stmt(depth) for _ in range(nstmt)]
    decl = "var a, b, c, t, %s : integer;\n" % ", ".join(["i%d" % k for k in range(1, 10)] + ["w%d" % k for k in range(1, g.nctr + 1)])
    pas = "program p;\n" + decl + "begin\n  t := 1; a := 0; b := 0; c := 0;\n" + "".join("  read(%s);\n" % v for v in iv)
    pas += "".join("  " + s[0] + ";\n" for s in ss) + "  writeln(t, ' ', a, ' ', b, ' ', c)\nend.\n"
    orc = "void oracle(void) { i32 t = 1, a = 0, b = 0, c = 0;\n" + "".join(" %s = in_range(%d, %d);\n" % (v, lo, hi) for v in iv)
    orc += "".join(" " + s[1] + "\n" for s in ss) + " I(t); SP; I(a); SP; I(b); SP; IL(c); }\n"
    return Prog(name, pas, orc, **kw)
