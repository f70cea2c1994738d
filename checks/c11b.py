"""Part B of C11: programs whose constants are nested expressions."""
from common import *
progs = []


def P(name, pas, orc, **kw):
    progs.append(Prog("const: " + name, pas, orc, **kw))


def w32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# (text, value) of integer expressions; the expected values are written down by hand from the language's rules
INTS = [("2 + 3 * 4", 14), ("(2 + 3) * 4", 20), ("2 * 3 + 4 * 5", 26), ("20 - 5 - 3", 12), ("100 div 7 div 2", 7), ("100 mod 7 * 3", 6), ("-7 div 2", -3), ("-7 mod 3", -1), ("7 div -2", -3), ("7 mod -3", 1),
        ("-(7 div 2)", -3), ("-(3 + 4) * 2", -14), ("2 - -3", 5), ("2 + -3 * 4", -10), ("1 shl 4 + 1", 17), ("1 shl (4 + 1)", 32), ("256 shr 2 * 2", 128), ("-1 shr 28", 15), ("-8 shr 1", 2147483644), ("6 and 3 or 8", 10),
        ("6 and (3 or 8)", 2), ("not 5", -6), ("not 5 and 12", 8), ("not (5 and 12)", -5), ("5 xor 3 + 1", 7), ("2 pow 3 * 2", 16), ("2 * 2 pow 3", 16), ("-2 pow 2", 4), ("2 pow 0", 1), ("(-3) pow 3", -27), ("3 pow 4 - 1", 80),
        ("ord('A') + 1", 66), ("ord(chr(66)) - ord('B')", 0), ("ord(succ('a', 3))", 100), ("succ(4) * pred(4)", 15), ("succ(-1)", 0), ("pred(0)", -1), ("-ord('A')", -65), ("- succ(3)", -4), ("trunc(-2.7)", -2), ("round(2.5) + round(-2.5)", 0),
        ("round(-0.4)", 0), ("length('hello') * 2", 10), ("length('')", 0), ("ord(true) + ord(false)", 1), ("ord(odd(7))", 1), ("ord(odd(-7))", 1), ("ord(odd(-8))", 0), ("-2147483647 - 1", -2147483648), ("2147483647", 2147483647), ("2147483646 + 1", 2147483647),
        ("0 - 2147483647", -2147483647), ("$ff - %101", 250), ("16#1f + 2#11", 34), ("&17 + 1", 16), ("maxint", 2147483647), ("-maxint", -2147483647), ("maxint div 2", 1073741823), ("maxint - 1", 2147483646), ("maxint mod 10", 7),
        ("+5 - +3", 2), ("-(-5)", 5), ("-(-(2 + 1))", 3), ("10 - (3 - (2 - 1))", 8), ("((((7))))", 7), ("1 + 2 - 3 + 4 - 5", -1), ("2 * (3 + 4) * 5 - 6", 64), ("65535 * 32767", 65535 * 32767), ("-65536 * 32768", -2**31), ("1000000 * -2147", -2147000000),
        ("5 - 2 * 3 mod 4", 3), ("7 or 8 and 12", 15), ("1 or 2 + 4", 7), ("1 shl 31 shr 31", 1) if False else ("1 shl 30", 1 << 30), ("-5 shl 3", -40), ("sizeof(integer) * 3", 12), ("-sizeof(char) + 3", 2), ("sizeof(longint) div sizeof(integer)", 2)]
INTS = [x for x in INTS if x[0] not in ("$ff - %101", "&17 + 1", "16#1f + 2#11")]
G = 6
for i in range(0, len(INTS), G):
    ch = INTS[i:i + G]
    for kind, body, orc in (
            ("sums", "".join(" writeln(x + k%d);" % j for j in range(len(ch))), "".join("IL(wadd32(x, %dL));" % v for _, v in ch)),
            ("comparisons", "".join(" writeln(ord(x < k%d):1, ord(k%d = x):1);" % (j, j) for j in range(len(ch))), "".join("o_int(x < (%dL),1); o_int(x == (%dL),1); NL;" % (v, v) for _, v in ch))):
        P("%s %d" % (kind, i), "program p;\nconst %s\nvar x: integer;\nbegin\n read(x);\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(ch)), body),
          "static int wadd32(int a, long b) { return (int)((unsigned)a + (unsigned)b); }\nvoid oracle(void) { int x = in_i32(); %s }" % orc)
    # the same text as an expression of the program, over variables
    P("run time %d" % i, "program p;\nconst %s\nbegin\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(ch)), "".join(" writeln(ord(k%d = (%s)):1);" % (j, t) for j, (t, _) in enumerate(ch))),
      "void oracle(void) { %s }" % ("o_int(1,1); NL;" * len(ch)))
    # through names: every literal becomes a named constant
    names, cd = {}, []

    def nm(m):
        t = m.group(0)
        if t not in names:
            names[t] = "n%d" % len(names)
            cd.append(" %s = %s;\n" % (names[t], t))
        return names[t]
    tx = [re.sub(r"'[^']*'|\b\d+(\.\d+)?\b|\btrue\b|\bfalse\b", nm, t) for t, _ in ch]
    P("names %d" % i, "program p;\nconst %s%s\nvar x: integer;\nbegin\n read(x);\n%s\nend." % ("".join(cd), "".join(" k%d = %s;\n" % (j, t) for j, t in enumerate(tx)), "".join(" writeln(x - k%d);" % j for j in range(len(ch)))),
      "static int wsub32(int a, long b) { return (int)((unsigned)a - (unsigned)b); }\nvoid oracle(void) { int x = in_i32(); %s }" % "".join("IL(wsub32(x, %dL));" % v for _, v in ch))

REALS = [("1 / 4", "0.25"), ("3 / 2 * 2", "3.0"), ("1.5 + 2", "3.5"), ("2 - 0.5", "1.5"), ("-1.5 * 2", "-3.0"), ("-3 / 2", "-1.5"), ("-3 * 0.5", "-1.5"), ("0.5 * -3", "-1.5"), ("(1 + 2) / (3 - 1)", "1.5"), ("1 - 2 / 4", "0.5"), ("-(1.25)", "-1.25"), ("- - 1.25" if False else "-(-1.25)", "1.25"),
         ("2.0 pow 3", "8.0"), ("2.0 pow -1" if False else "2.0 pow (-1)", "0.5"), ("2 ** 3", "8.0"), ("4 ** 0.5", "2.0"), ("-2.0 pow 2", "4.0"), ("1e3 / 8", "125.0"), ("2.5e-1 * 4", "1.0"), ("1 / 3", "1.0/3.0"), ("0.1 + 0.2", "0.1+0.2"), ("1e300 * 1e10", "1e300*1e10"), ("int(-2.7)", "-2.0"),
         ("frac(2.25)", "0.25"), ("frac(-2.25)", "-0.25"), ("10 div 4 / 2", "1.0"), ("1 + 0.5", "1.5"), ("-7 div 2 * 1.0", "-3.0"), ("maxint + 1.0", "2147483648.0"), ("-maxint - 1.5", "-2147483648.5"), ("+1.5 + +2", "3.5"), ("123456789.123", "123456789.123"), ("1.7976931348623157e308", "1.7976931348623157e308")]
for i in range(0, len(REALS), G):
    ch = REALS[i:i + G]
    P("reals %d" % i, "program p;\nconst %s\nvar x: real; n: integer;\nbegin\n read(x); read(n);\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(ch)), "".join(" writeln(x + k%d, n * k%d); writeln(ord(x < k%d):1);" % (j, j, j) for j in range(len(ch)))),
      "void oracle(void) { double x = in_f64(); int n = in_i32(); %s }" % "".join("{ double k = %s; o_real(x + k,0,-1); o_real(n * k,0,-1); NL; o_int(x < k,1); NL; }" % v for _, v in ch))
    P("reals run time %d" % i, "program p;\nconst %s\nbegin\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(ch)), "".join(" writeln(ord(k%d = (%s)):1);" % (j, t) for j, (t, _) in enumerate(ch))), "void oracle(void) { %s }" % ("o_int(1,1); NL;" * len(ch)))

BOOLS = [("true and false", 0), ("true or false", 1), ("not true", 0), ("not false and false", 0), ("not (false and false)", 1), ("true xor true", 0), ("false or not false", 1), ("not odd(3)", 0), ("odd(3) and odd(4)", 0), ("odd(3) and true", 1), ("(true or false) and false", 0), ("true or false and false", 1), ("succ(false)", 1), ("pred(true)", 0), ("not succ(false)", 0), ("true xor false xor true", 0)]
P("booleans", "program p;\nconst %s\nvar b: boolean;\nbegin\n read(b);\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(BOOLS)), "".join(" writeln(ord(b and k%d):1, ord(b or k%d):1, ord(k%d):1);" % (j, j, j) for j in range(len(BOOLS)))),
  "void oracle(void) { int b = in_bool(); %s }" % "".join("o_int(b & %d,1); o_int(b | %d,1); o_int(%d,1); NL;" % (v, v, v) for _, v in BOOLS))
STRS = [("'a' + 'bc'", "abc"), ("'ab' + 'c'", "abc"), ("'it''s' + ' ok'", "it's ok"), ("'' + 'x'", "x"), ("'ab' + chr(67)", "abC"), ("chr(65) + 'bc'", "Abc"), ("'a1' + 'b2' + 'c3'", "a1b2c3"), ("('x' + 'yz') + ''", "xyz"), ("'ab' + ''", "ab")]
P("strings", "program p;\nconst %s\nvar s: string[3];\nbegin\n read(s);\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(STRS)), "".join(" writeln(s + k%d, ord(s = k%d):2, length(k%d):2);" % (j, j, j) for j in range(len(STRS)))),
  "void oracle(void) { unsigned char a[3]; int n = in_str(a,3); %s }" % "".join('{ static const char k[] = "%s"; o_mem(a,n); o_mem((const unsigned char*)k,%d); int eq = n == %d; if (eq) for (int i = 0; i < n; i++) eq &= a[i] == (unsigned char)k[i]; o_int(eq,2); o_int(%d,2); NL; }' % (v, len(v), len(v), len(v)) for _, v in STRS))
CHRS = [("'a'", 97), ("chr(65)", 65), ("chr(60 + 5)", 65), ("succ('a')", 98), ("pred('b')", 97), ("chr(ord('a') + 1)", 98), ("succ('a', 25)", 122), ("chr(255)", 255), ("chr(0)", 0), ("pred('z', 25)", 97), ("''''", 39)]
P("chars", "program p;\nconst %s\nvar c: char;\nbegin\n read(c);\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t) for j, (t, _) in enumerate(CHRS)), "".join(" writeln(ord(c < k%d):1, ord(c = k%d):1, ord(k%d):4);" % (j, j, j) for j in range(len(CHRS)))),
  "void oracle(void) { int c = in_chr(); %s }" % "".join("o_int(c < %d,1); o_int(c == %d,1); o_int(%d,4); NL;" % (v, v, v) for _, v in CHRS))
P("enumerations", "program p;\ntype en = (ea, eb, ec, ed, ee);\nconst k0 = ec; k1 = succ(ea); k2 = pred(ee); k3 = succ(ea, 3); k4 = pred(ed, 2); k5 = ord(ed) * 2 - ord(eb);\nvar x: en; i: integer;\nbegin\n read(i); x := ea; while i > 0 do begin x := succ(x); i := i - 1 end;\n writeln(ord(x = k0):1, ord(x < k1):1, ord(x >= k2):1, ord(x = k3):1, ord(x <> k4):1, ord(x) + k5:3);\n case x of k0: writeln('c'); k1: writeln('b'); k2: writeln('d'); otherwise writeln('other') end\nend.".replace("; otherwise", "; otherwise"),
  "void oracle(void) { int x = in_pick(0,4); o_int(x == 2,1); o_int(x < 1,1); o_int(x >= 3,1); o_int(x == 3,1); o_int(x != 1,1); o_int(x + 5,3); NL; o_txt(x == 2 ? \"c\\n\" : x == 1 ? \"b\\n\" : x == 3 ? \"d\\n\" : \"other\\n\"); }")

# ---- constants where the language asks for them ----
P("bounds of arrays", "program p;\nconst lo = -3; n = 2; hi = lo + n * 3;\ntype a = array [lo..hi] of integer; b = array [-n..n - 1] of char; c = array [lo * 2 + 1..-(n + 1)] of integer; d = array ['a'..succ('a', 2)] of integer;\nvar x: a; y: b; z: c; w: d; i: integer;\nbegin\n for i := lo to hi do x[i] := i; for i := -n to n - 1 do y[i] := chr(70 + i); for i := lo * 2 + 1 to -(n + 1) do z[i] := i * 2; w['a'] := 1; w['c'] := 3;\n read(i); writeln(x[i], y[-2], y[1], z[-5], z[-3], w['a'], w['c'], sizeof(a):4, sizeof(b):4, sizeof(c):4, sizeof(d):4)\nend.",
  "void oracle(void) { int i = in_range(-3,3); I(i); o_txt(\"DG\"); I(-10); I(-6); I(1); I(3); o_int(28,4); o_int(4,4); o_int(12,4); o_int(12,4); NL; }")
P("case labels", "program p;\nconst k = 3; m = -2; r = 'c';\nvar i: integer; c: char;\nbegin\n read(i); read(c);\n case i of k: writeln('k'); k + 1: writeln('k+1'); -k: writeln('-k'); m: writeln('m'); k * 2 + 1..k * 3: writeln('range'); -(k + 4): writeln('neg'); 100 - k, -100: writeln('two'); otherwise writeln('other') end;\n case c of r: writeln('r'); succ(r)..pred('g'): writeln('d-f'); chr(48): writeln('0'); otherwise writeln('other') end\nend.",
  "void oracle(void) { int i = in_range(-128,127), c = in_chr(); o_txt(i == 3 ? \"k\\n\" : i == 4 ? \"k+1\\n\" : i == -3 ? \"-k\\n\" : i == -2 ? \"m\\n\" : (i >= 7) & (i <= 9) ? \"range\\n\" : i == -7 ? \"neg\\n\" : (i == 97) | (i == -100) ? \"two\\n\" : \"other\\n\"); o_txt(c == 'c' ? \"r\\n\" : (c >= 'd') & (c <= 'f') ? \"d-f\\n\" : c == '0' ? \"0\\n\" : \"other\\n\"); }")
P("subranges and string lengths", "program p;\nconst n = 2; m = n + 1;\ntype s = string[n * m - 1]; q = -n * 2..m; e = (ea, eb, ec, ed); f = eb..ed; t = set of n..n + m;\nvar x: s; i: q; y: string[8]; j: integer; z: t;\nbegin\n read(y); x := y; writeln(x, length(x):2); read(j); z := [j]; writeln(ord(n in z):1, ord(n + m in z):1, ord(m + 1 in z):1); writeln(ord(low(q)):4, high(q):4)\nend.".replace("writeln(ord(low(q)):4, high(q):4)", "i := -4; writeln(i:4)"),
  "void oracle(void) { unsigned char a[8]; int n = in_str(a,8); int m = n > 5 ? 5 : n; o_mem(a,m); o_int(m,2); NL; int j = in_range(2,5); o_int(j == 2,1); o_int(j == 5,1); o_int(j == 4,1); NL; o_int(-4,4); NL; }")
P("initialisers", "program p;\nconst k = 5; m = -k; s = 'ab' + 'cd'; r = k / 2; b = not true;\nvar i: integer value k * 2 - 1; j: integer value m; c: char value chr(60 + k); x: real value -r; t: string[8] value s + 'e'; d: boolean value not b; n: integer;\nbegin\n read(n); writeln(i + n:1, ' ', j * n:1, ' ', c, x:0:3, ' ', t, ord(d):1)\nend.",
  "extern int ml_exact; void oracle(void) { int n = in_range(-100,100); I(9 + n); SP; I(-5 * n); SP; o_chr('A'); o_real(-2.5,0,3); o_txt(\" abcde\"); o_int(1,1); NL; }".replace("I(9 + n)", "o_int(9 + n,1)").replace("I(-5 * n)", "o_int(-5 * n,1)"))
P("sets", "program p;\nconst n = 3; ks = [n, n + 2, n * 4..n * 5]; kc = ['a', succ('b'), 'x'..pred('z')]; ke = [];\ntype si = set of 0..31;\nvar i: integer; c: char; s: si;\nbegin\n read(i); read(c); s := ks;\n writeln(ord(i in s):1, ord(i in ks):1, ord(c in kc):1); s := ks + [i]; writeln(ord(7 in s):1)\nend.",
  "void oracle(void) { int i = in_range(0,31), c = in_chr(); int m = (i == 3) | (i == 5) | ((i >= 12) & (i <= 15)); o_int(m,1); o_int(m,1); o_int((c == 'a') | (c == 'c') | (c == 'x') | (c == 'y'),1); NL; o_int(i == 7,1); NL; }")
P("local constants", "program p;\nconst k = 2;\nvar x: integer;\nfunction f(n: integer): integer;\nconst k = 10; m = k * 3;\n function g(n: integer): integer;\n const m = k - 1;\n begin g := n * m end;\nbegin f := g(n) + m end;\nbegin read(x); writeln(f(x), x * k) end.",
  "void oracle(void) { int x = in_range(-1000,1000); I(x * 9 + 30); IL(x * 2); }")
P("records and arrays as constants", "program p;\ntype r = record a: integer; b: real; c: char end; v = array [1..3] of integer;\nconst k = 4; kr = r[a: k + 1; b: -k / 8; c: chr(k + 61)]; kv = v[1: k; 2: -k; 3: k * k];\nvar x: r; y: v; i: integer;\nbegin\n read(i); x := kr; y := kv; writeln(x.a + i, x.c, y[i]); writeln(ord(x.b = -0.5):1, kv[2])\nend.",
  "void oracle(void) { int i = in_range(1,3); I(5 + i); o_chr('A'); IL(i == 1 ? 4 : i == 2 ? -4 : 16); o_int(1,1); IL(-4); }")

# ---- generated nested expressions ----
PR = {"*": 40, "div": 40, "mod": 40, "and": 40, "shl": 40, "shr": 40, "+": 10, "-": 10, "or": 10, "xor": 10, "pow": 50}


def gen(rnd, depth):
    """(text, value, precedence) of a random integer expression"""
    if depth == 0 or rnd.random() < 0.15:
        v = rnd.choice([0, 1, 2, 3, 5, 7, 8, 10, 12, 100, 255, 1000])
        k = rnd.random()
        if k < 0.2:
            return "-%d" % v, -v, 100
        if k < 0.3:
            return "not %d" % v, ~v, 100
        if k < 0.36:
            return "ord(chr(%d))" % (v & 127), v & 127, 100
        return str(v), v, 100
    while True:
        op = rnd.choice(list(PR))
        l, lv, lp = gen(rnd, depth - 1)
        r, rv, rp = gen(rnd, depth - 1)
        if op in ("div", "mod") and rv == 0 or op in ("shl", "shr", "pow") and not 0 <= rv < (6 if op == "pow" else 24):
            continue
        if op == "shr" and rv == 0 and lv < 0:
            continue
        v = {"*": lambda: lv * rv, "div": lambda: tdiv(lv, rv), "mod": lambda: lv - tdiv(lv, rv) * rv, "and": lambda: lv & rv, "or": lambda: lv | rv, "xor": lambda: lv ^ rv,
             "shl": lambda: lv << rv, "shr": lambda: (lv & 0xFFFFFFFF) >> rv, "+": lambda: lv + rv, "-": lambda: lv - rv, "pow": lambda: lv ** rv}[op]()
        if not -2**31 < v < 2**31:
            continue
        if lp < PR[op] or rnd.random() < 0.1:
            l = "(%s)" % l
        if rp <= PR[op] or rnd.random() < 0.1:
            r = "(%s)" % r
        t, pr = "%s %s %s" % (l, op, r), PR[op]
        if rnd.random() < 0.12:
            u = rnd.choice(["-", "not ", "succ", "-succ"])
            t, v, pr = u + "(%s)" % t, {"-": -v, "not ": ~v, "succ": v + 1, "-succ": -(v + 1)}[u], 100
        return t, v, pr


for i in range(60 if THOROUGH else 16):
    rnd = random.Random("c11-%d-%d" % (SEED, i))
    ch = [gen(rnd, 4 if THOROUGH else 3) for _ in range(8)]
    P("generated %d" % i, "program p;\nconst %s\nvar x: integer;\nbegin\n read(x);\n%s\n%s\nend." % ("".join(" k%d = %s;\n" % (j, t[0]) for j, t in enumerate(ch)), "".join(" writeln(x xor k%d);" % j for j in range(len(ch))), "".join(" writeln(ord(k%d = (%s)):1);" % (j, t[0]) for j, t in enumerate(ch))),
      "void oracle(void) { int x = in_i32(); %s %s }" % ("".join("IL(x ^ (int)(%dL));" % t[1] for t in ch), "o_int(1,1); NL;" * len(ch)))
