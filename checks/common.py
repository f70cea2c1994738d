import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from gen import *
THOROUGH = TIER == "thorough"
RND = random.Random(SEED * 7919 + 17)


def hash_(s):
    h = SEED * 131 + 7
    for c in s:
        h = (h * 33 + ord(c)) % 1000003
    return h

