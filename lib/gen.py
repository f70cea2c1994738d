"""Typed random expressions rendered both as Pascal and as C (the C text is the oracle)."""
import random

I, L, B = "i32", "i64", "bool"

CFN = {"+": ("wadd", "wadd64"), "-": ("wsub", "wsub64"), "*": ("wmul", "wmul64"), "div": ("idiv", "idiv64"),
       "mod": ("imod", "imod64"), "shl": ("ishl", "ishl64"), "shr": ("ishr", "ishr64")}
BIT = {"and": "&", "or": "|", "xor": "^"}
PREC = {"*": 40, "div": 40, "mod": 40, "and": 40, "shl": 40, "shr": 40, "+": 10, "-": 10, "or": 10, "xor": 10,
        "=": 5, "<>": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "and_then": 40, "or_else": 10, "in": 5}
REL = {"=": "==", "<>": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">="}


class E:
    """t: type, p: Pascal text, c: C text, prec: precedence of the outermost operator (100: atom)"""
    __slots__ = ("t", "p", "c", "prec", "hard")

    def __init__(self, t, p, c, prec=100, hard=0):
        self.t, self.p, self.c, self.prec, self.hard = t, p, c, prec, hard


def paren(e, minprec):
    return e.p if e.prec > minprec else "(" + e.p + ")"


def lit(v, t=None):
    if t is None:
        t = I if -2 ** 31 < v < 2 ** 31 else L
    p = str(v)
    if v < 0:
        return E(t, "(%d)" % v, "((%s)%d%s)" % ("i64" if t == L else "i32", v, "ll" if t == L else ""))
    return E(t, p, "((%s)%d%s)" % ("i64" if t == L else "i32", v, "ll" if t == L else ""))


def binop(op, a, b, full=False):
    """a op b with minimal parentheses (left associative), or full ones"""
    pr = PREC[op]
    lp = paren(a, pr - 1) if not full else (a.p if a.prec == 100 else "(" + a.p + ")")
    rp = paren(b, pr) if not full else (b.p if b.prec == 100 else "(" + b.p + ")")
    txt = "%s %s %s" % (lp, op, rp)
    hard = a.hard + b.hard + (1 if op in ("*", "div", "mod") else 0)
    if op in REL:
        if a.t == B:
            return E(B, txt, "((%s) %s (%s))" % (a.c, REL[op], b.c), pr, hard)
        return E(B, txt, "((i64)(%s) %s (i64)(%s))" % (a.c, REL[op], b.c), pr, hard)
    if a.t == B:
        cc = {"and": "(%s & %s)", "or": "(%s | %s)", "xor": "(%s ^ %s)", "and_then": "(%s && %s)", "or_else": "(%s || %s)"}[op]
        return E(B, txt, cc % (a.c, b.c), pr, hard)
    t = L if L in (a.t, b.t) else I
    if op in BIT:
        ct = "i64" if t == L else "i32"
        return E(t, txt, "((%s)(%s) %s (%s)(%s))" % (ct, a.c, BIT[op], ct, b.c), pr, hard)
    return E(t, txt, "%s(%s, %s)" % (CFN[op][t == L], a.c, b.c), pr, hard)


def neg(a):
    # a sign applies to the term that follows; only used on atoms and parenthesised operands
    return E(a.t, "-" + (a.p if a.prec == 100 and not a.p.startswith("-") else "(" + a.p + ")"), "%s(%s)" % ("wneg64" if a.t == L else "wneg", a.c), 20, a.hard)


def bnot(a):
    if a.t == B:
        return E(B, "not " + (a.p if a.prec == 100 else "(" + a.p + ")"), "(!(%s))" % a.c, 60, a.hard)
    return E(a.t, "not " + (a.p if a.prec == 100 else "(" + a.p + ")"), "(~(%s))" % a.c, 60, a.hard)


class Gen:
    def __init__(self, rnd, vars_, maxhard=3):
        """vars_: list of (type, pascal text, C text)"""
        self.r = rnd
        self.vars = [E(*v) for v in vars_]
        self.maxhard = maxhard

    def atom(self, t):
        vs = [v for v in self.vars if v.t == t or (t == L and v.t == I)]
        if t == B:
            vs = [v for v in self.vars if v.t == B]
            if vs and self.r.random() < 0.9:
                return self.r.choice(vs)
            return self.r.choice([E(B, "true", "1"), E(B, "false", "0")])
        if vs and self.r.random() < 0.75:
            return self.r.choice(vs)
        if t == L and self.r.random() < 0.4:
            return lit(self.r.choice([2 ** 32, 2 ** 33 + 5, 2 ** 40 - 1, 1099511627776, 4294967296 * 3 + 1]))
        return lit(self.r.choice([0, 1, 2, 3, 5, 7, 10, 15, 16, 100, 127, 255, 256, 1000, 32767, 65535, 65536, 1000000, 2147483647]))

    def num(self, t, depth):
        if depth <= 0 or self.r.random() < 0.15:
            return self.atom(t)
        k = self.r.random()
        if k < 0.08:
            return neg(self.num(t, depth - 1))
        if k < 0.12:
            return bnot(self.num(t, depth - 1))
        op = self.r.choice(["+", "-", "+", "-", "*", "div", "mod", "and", "or", "xor", "shl", "shr"])
        if op in ("shl", "shr"):
            a = self.num(t, depth - 1)
            b = lit(self.r.choice([0, 1, 2, 3, 5, 8, 13, 31]))
            return binop(op, a, b)
        tl, tr = t, t
        if t == L:
            tl, tr = self.r.choice([(L, L), (L, I), (I, L)])
        a, b = self.num(tl, depth - 1), self.num(tr, depth - 1)
        if op in ("div", "mod") and (b.p[0].isdigit() or b.prec < 100):
            # a literal or compound divisor could make the assumption "divisor not zero" contradictory
            b = lit(self.r.choice([1, 2, 3, 7, 10, 256, 1000, -3])) if self.r.random() < 0.6 else self.r.choice([v for v in self.vars if v.t == I])
        e = binop(op, a, b)
        if e.hard > self.maxhard:
            return binop(self.r.choice(["+", "-", "xor"]), a, b) if a.hard + b.hard <= self.maxhard else self.atom(t)
        return e

    def bool(self, depth):
        if depth <= 0 or self.r.random() < 0.1:
            return self.atom(B)
        k = self.r.random()
        if k < 0.45:
            t = self.r.choice([I, I, L])
            return binop(self.r.choice(list(REL)), self.num(t, depth - 1), self.num(self.r.choice([t, I]), depth - 1))
        if k < 0.6:
            return bnot(self.bool(depth - 1))
        if k < 0.66:
            return binop(self.r.choice(list(REL)), self.bool(depth - 1), self.bool(depth - 1))
        return binop(self.r.choice(["and", "or", "xor", "and_then", "or_else"]), self.bool(depth - 1), self.bool(depth - 1))
