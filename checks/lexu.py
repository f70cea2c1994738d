"""Units that run Lexer symbolically over source texts of solver-chosen characters (used by C17 and C25)."""
from common import *
import fe
HERE = os.path.dirname(os.path.abspath(__file__))
SRCS = ("lexer.cpp", "token.cpp", "utils.cpp", "location.cpp")
REF = open(os.path.join(HERE, "lexref.h")).read()
NATIVE = REF + r"""
#include <cstring>
extern "C" {
void sym_assert(int c, const char* m) { if (!c) { printf("%s\n", m); exit(1); } }
void sym_fail(const char* m) { sym_assert(0, m); }
}
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "rb");
    static unsigned char t[65536];
    int n = fread(t, 1, sizeof t, f);
    fclose(f);
    FileSource s(argv[1]);
    compare(s, t, n);
    puts("agrees");
    return 0;
}
"""


def native(e):
    d = os.path.join(fe.vf.BUILD, "lexn-" + hashlib.sha1((REF + e.dir + NATIVE).encode()).hexdigest()[:16])

    def make(tmp):
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/n.cpp", "w").write(NATIVE)
        must(["clang++", "-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-w", "-I" + LIB, "-I" + e.src, "-I" + LLVM + "/include", tmp + "/n.cpp"] +
             [e.src + "/" + s for s in SRCS + ("source.cpp",)] + ["-o", tmp + "/n"])
    with fe.LOCK:
        atomically(d, make)
    return d + "/n"


def replayer(parts):
    """rebuild the text of a counterexample and run the real lexer on a file that holds it"""
    def rp(e, d, v):
        inp = fe.inputs(v)
        text = b""
        for p in parts:
            if isinstance(p, str):
                text += p.encode("latin1")
            elif isinstance(p, int):
                text += bytes.fromhex(inp.get("c%d" % p, "00"))[:1] or b"\0"
            elif p[0] == "case":
                for k, ch in enumerate(p[1]):
                    up = bytes.fromhex(inp.get("u%s_%d" % (p[2], k), "00"))[:1] or b"\0"
                    text += ch.upper().encode() if up[0] & 1 else ch.encode()
        m = inp.get("n")
        if m is not None:
            text = text[:int.from_bytes(bytes.fromhex(m)[:4], "little")]
        open(d + "/text.pas", "wb").write(text)
        rc, o, er = sh([native(e), d + "/text.pas"], timeout=20)
        return rc != 0, "text %r: exit %d: %s" % (text, rc, (o + er)[:600]), {"text.pas": text}
    return rp


class Text:
    """a source text of fixed, chosen and case-varying characters; assumptions restrict the chosen ones"""
    def __init__(self, parts, asm="", pre=""):
        body, n, self.parts = [], 0, parts
        for p in parts:
            if isinstance(p, str):
                for ch in p:
                    body.append("t[%d] = %d;" % (n, ord(ch)))
                    n += 1
            elif isinstance(p, int):
                body.append('t[%d] = sym_val(8, "c%d"); int c%d = t[%d];' % (n, p, p, n))
                n += 1
            else:
                for k, ch in enumerate(p[1]):
                    body.append('t[%d] = %d;' % (n, ord(ch)) if not ch.isalpha() else '{ int u = sym_val(8, "u%s_%d"); sym_assume((u == 0) | (u == 1)); t[%d] = %d - 32 * u; }' % (p[2], k, n, ord(ch)))
                    n += 1
        self.n = n
        self.body = "\n".join(body) + "\n" + asm

    def unit(self, name, **kw):
        h = REF + "int main() { static unsigned char t[64]; %s\nMemSource s(t, %d); compare(s, t, %d); return 0; }\n" % (self.body, self.n, self.n)
        return fe.Unit(name, h, SRCS, replayer(self.parts), **kw)


def among(c, chars):
    return "sym_assume(%s);" % " | ".join("(c%d == %d)" % (c, ord(x)) for x in sorted(set(chars)))


def ranges(c, *rs):
    return "sym_assume(%s);" % " | ".join("((c%d >= %d) & (c%d <= %d))" % (c, a, c, b) for a, b in rs)
