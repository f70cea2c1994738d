"""C17: the token sequence of any text.  lexer.cpp and token.cpp are executed symbolically over texts whose characters are
solver variables; every token's kind, value, characters and line are asserted to be those of a reference tokeniser
(lexref.h).  A counterexample text is replayed by the real lexer (with its own FileSource) compiled natively."""
from lexu import *
units = []


def T(name, parts, asm="", **kw):
    units.append(Text(parts, asm).unit(name, **kw))


# every text of one, two and three bytes, in parts by the first character
T("any 1 byte", [0])
GROUPS = {
    "blank": [(0, 8), (9, 13), (14, 32)], "letter": [(65, 90), (95, 95), (97, 122)], "digit": [(48, 57)],
    "(": [(40, 40)], "*": [(42, 42)], ".": [(46, 46)], "<": [(60, 60)], ">": [(62, 62)], ":": [(58, 58)], "/": [(47, 47)], "{": [(123, 123)], "$": [(36, 36)],
    "quote": [(39, 39)], "double quote": [(34, 34)], "single": [(41, 41), (43, 45), (59, 59), (61, 61), (64, 64), (91, 91), (93, 94)], "other": [(33, 33), (35, 35), (37, 38), (63, 63), (92, 92), (96, 96), (124, 127)], "high": [(128, 255)],
}
for g, rs in GROUPS.items():
    T("any 3 bytes: first " + g, [0, 1, 2], ranges(0, *rs), max_time=200 if THOROUGH else 100)


# ---- longer texts over the characters that matter to one part of the lexer ----
OPS = "()*.<>=:+-/,;[]^@"
NUM = "0189aAfFeE.+-#$)x" if THOROUGH else "019aeE.-#)"
COM = "{}(*)/\n a'"
NC = 6 if THOROUGH else 5
STR = "'\"\n a"


def A(name, n, chars, fixed=None, pre="", post="", **kw):
    parts = list(pre) + list(range(n)) + list(post)
    T(name, parts, "\n".join(among(i, fixed[i] if fixed and i < len(fixed) else chars) for i in range(n)), **kw)


for c in OPS:
    A("4 operator characters: " + c, 4, OPS, [c], max_time=150)
for c in "0189" if THOROUGH else "19":
    A("6 number characters: " + c, 6 if THOROUGH else 5, NUM, [c], max_time=200)
A("number after $", 4, NUM, pre="$", max_time=150)
A("number after 16#", 4, NUM + "g", pre="16#", max_time=150)
A("number after 2#", 4, "0129e.#)", pre="2#", max_time=150)
A("number after 8#", 4, "0789e.#)", pre="8#", max_time=150)
A("number after 36#", 3, "0zZ9e.#)x", pre="36#", max_time=150)
A("any base", 3, "0123456789#z", max_time=150, post="#1Zz")
A("base beyond 32 bits", 1, "0123456789", pre="42949673", post="8#11")
A("base beyond 32 bits, first digits", 4, "0123456789", pre="429496", post="#11", max_time=150)
A("exponent", 4, "019+-eE.", pre="1.5e", max_time=150)
A("exponent of an integer", 4, "019+-eE.", pre="12e", max_time=150)
A("huge exponent", 3, "0123456789", pre="1e")
A("huge negative exponent", 3, "0123456789", pre="1e-")
A("fraction", 4, "0129e.)", pre="3.", max_time=150)
for c in "{}(*)/\n a'":
    A("%d comment characters: " % NC + ("newline" if c == "\n" else "blank" if c == " " else c), NC, COM, [c], max_time=250)
A("comment ends", 5, "*)}a", pre="(*", post=" x")
A("braces end", 5, "*)}{(", pre="{", post="} x")
A("two comments", 3, " \n({*/", pre="{a}", post="{b}x")
A("two bracket comments", 3, " \n({*/", pre="(*a*)", post="(*b*)x")
A("comment between", 3, "{}*() \n", pre="a{", post="}:=(*)*)b")
A("line comment", 3, "{}*()/ \n'", pre="x//", post="\ny")
for c in STR:
    A("6 string characters: " + ("newline" if c == "\n" else "blank" if c == " " else "quote" if c == "'" else c), 7 if THOROUGH else 6, STR, [c], max_time=200)
T("any 3 characters between quotes", ["'", 0, 1, 2, "'"], max_time=150)
T("any 2 characters between double quotes", ['"', 0, 1, '"', " x"], max_time=150)
T("any character after a string", ["'ab'", 0, 1], max_time=150)
T("any 2 characters after a name", ["ab", 0, 1, " c"], max_time=150)
T("any 2 characters after a number", ["12", 0, 1, " c"], max_time=150)
T("any 2 characters after a real", ["1.5", 0, 1, " c"], max_time=150)
T("any 2 characters after an exponent", ["1e5", 0, 1, " c"], max_time=150)
T("any 2 characters after hex", ["$1f", 0, 1, " c"], max_time=150)
T("any 2 characters after based", ["7#16", 0, 1, " c"], max_time=150)
T("any character between tokens", ["a", 0, "b", 1, "1"], max_time=150)
T("any character in a comment", ["a{", 0, "}b(*", 1, "*)c"], max_time=150)
T("decimal of 20 digits", [0, "844674407", 1, "709551", 2, 3, 4], "\n".join(among(i, "0123456789") for i in range(5)), max_time=100)
A("decimal of 21 digits", 6, "0123456789", pre="184467440737095", max_time=100)
T("decimal of 19 digits", [0, 1, "23372036854775807"], "\n".join(among(i, "0123456789") for i in range(2)), max_time=100)
T("hex of 16 digits", ["$", 0, "0123456789abcd", 1], "\n".join(among(i, "0123456789abcdefABCDEF") for i in range(2)), max_time=100)
T("hex of 17 digits", ["$", 0, "0123456789abcde5"], "\n".join(among(i, "0123456789abcdefABCDEF") for i in range(1)), max_time=100)
A("base 16 of 3 digits", 3, "0123456789abcdefABCDEF", pre="16#", max_time=150)
A("base 2 of 16 digits", 16, "01", pre="2#", max_time=150)
A("base 3", 8, "012", pre="3#", max_time=150)
A("base 36 of 3 digits", 3, "0123456789azAZ", pre="36#", max_time=150)
A("real of 4 digits", 4, "0123456789", post=".25")
A("real fraction of 4 digits", 4, "0123456789", pre="7.")
A("real of 18 digits", 3, "0123456789", pre="123456789012345.")
T("line numbers", ["a", 0, "b", 1, "c", 2, "d"], "\n".join(among(i, " \n{/") for i in range(3)))
T("line numbers after comments", ["a{", 0, "}", 1, "b(*", 2, "*)", 3, "c"], "\n".join(among(i, " \n") for i in range(4)))
T("line numbers around operators", ["a(", 0, "<", 1, "/", 2, ":", 3, ".", 4, "b"], "\n".join(among(i, " \n") for i in range(5)))

# ---- reserved words: any letter case, any following character, one character replaced ----
WORDS = """for to downto do function procedure if then else while repeat until begin end case otherwise with program unit module write writeln
writestr read readln readstr var array of packed record class object type file string set forward inline implementation interface const nil and
and_then or or_else not div mod xor shr shl pow in static virtual override private public protected restricted constructor destructor label goto
uses bindable default value import sizeof""".split()
for w in WORDS:
    T("word %s" % w, [("case", w, "w"), 0], max_time=60)
    T("word %s after" % w, [0, w, " ", 1], ranges(0, (33, 127)) if False else "", max_time=60)
    for i in range(len(w)):
        T("word %s with character %d replaced" % (w, i), [w[:i], 0, w[i + 1:], " x"], max_time=60)

if __name__ == "__main__":
    chk = Check("C17", "model_checking")
    chk.bounds.update({"arbitrary texts": "all texts of up to 3 bytes", "longer texts": "4 operator characters, 5 (thorough: 6) number, 5 (6) comment, 6 (7) string characters; literals of up to 21 digits; reserved words with one character replaced"})
    chk.assumptions += ["the value of a real literal of more than 15 digits is an uninterpreted function of its text (strtod)", "FileSource is executed in the replay only; symbolic runs feed the same characters through a Source in memory"]
    fe.run_units(chk, env(), units, budget=700)
    chk.finish(__doc__)
