#!/usr/bin/env python3
"""Authoring tool (not run by any check): condense the published mapping files
into the frozen reference tables used by the oracle.
usage: make_ref.py <encoding_tables dir>"""
import sys, os, glob
root = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
def load(path, base):
    t = {}
    for l in open(path, encoding="utf-8"):
        p = l.split()
        if len(p) >= 2 and not p[0].startswith("#") and not p[1].startswith("#"):
            k = int(p[0], base)
            assert k not in t
            t[k] = int(p[1], 16)
    return t
with open(here + "/single_byte.tsv", "w") as o:
    for f in sorted(glob.glob(root + "/single_byte/ascii_ext/*.txt")):
        t = load(f, 16)
        assert all(t[i] == i for i in range(128))
        o.write(os.path.basename(f)[:-4] + "\t" + " ".join("%04X" % t[b] if b in t else "-" for b in range(128, 256)) + "\n")
for n in ("big5", "jis0208"):
    t = load(root + "/whatwg/index-%s.txt" % n, 10)
    with open(here + "/%s.tsv" % n, "w") as o:
        for k in sorted(t):
            o.write("%d\t%04X\n" % (k, t[k]))
