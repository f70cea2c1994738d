"""mkseed.py [ID...]: writes seeded/<id>/ from the definitions in tools/seeds/*.py.
A definition: seed(id, property, needs, breaks, edits=[(file, old, new)], pas=..., inp=..., exp=..., opts=..., demo=None)"""
import os, sys, json, glob, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
DEMO = """#!/bin/bash
# compiles the program beside this file and compares its output with what the language defines
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 9
trap 'rm -rf "$w"' EXIT
cp "$here"/*.pas "$w"/ && cd "$w" || exit 9
/repo/lacsap %(opts)s %(main)s.pas > compile.log 2>&1 || { cat compile.log; echo "does not compile"; exit 1; }
timeout 20 ./%(main)s < "$here/input.txt" > out.txt 2> err.txt
rc=$?
if [ $rc -ne %(rc)d ]; then echo "exit status $rc, expected %(rc)d"; tail -5 err.txt; exit 1; fi
cmp out.txt "$here/expected.txt" || { diff -a out.txt "$here/expected.txt" | head; exit 1; }
exit 0
"""
def seed(id, prop, needs, breaks, edits, pas=None, inp="", exp="", opts="", demo=None, rc=0, files=None):
    if want and id not in want: return
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    patch = ""
    byf = {}
    for f, old, new in edits:
        if f not in byf:
            byf[f] = [open("/repo/" + f, encoding="latin1").read()] * 2
        o, c = byf[f]
        if c.count(old) != 1:
            print(id, ": text occurs", c.count(old), "times in", f, repr(old[:60])); return
        byf[f] = [o, c.replace(old, new)]
    for f, (o, c) in byf.items():
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", encoding="latin1").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if pas is not None:
        ps = pas if isinstance(pas, dict) else {"demo.pas": pas}
        main = list(ps)[0][:-4]
        for k, v in ps.items(): open(d + "/" + k, "w", encoding="latin1").write(v)
        open(d + "/input.txt", "w", encoding="latin1").write(inp)
        open(d + "/expected.txt", "w", encoding="latin1").write(exp)
        demo = DEMO % dict(opts=opts, main=main, rc=rc)
    for k, v in (files or {}).items(): open(d + "/" + k, "w", encoding="latin1").write(v)
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    print("wrote", id)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
