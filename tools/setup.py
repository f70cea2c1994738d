"""builds the symbolic execution engine and, to warm the cache, the compiler and the runtime of /repo"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
e = vf.env()
print("engine:", e.symex)
