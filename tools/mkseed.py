#!/usr/bin/env python3
"""tools/mkseed.py ID PROP file 'needs' 'breaks'  <<< "old\n=====\nnew" [repeat separated by #####]
   writes seeded/ID/patch.diff and meta.json (demo.sh is written separately)."""
import sys, os, json, difflib
i, prop, f, needs, br = sys.argv[1:6]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = V + "/seeded/" + i
os.makedirs(d, exist_ok=True)
files = {}
for blk in sys.stdin.read().split("\n#####\n"):
    fn = f
    if blk.startswith("@@"):
        fn, blk = blk[2:].split("\n", 1)
    old, new = blk.split("\n=====\n")
    old = old.rstrip("\n"); new = new.rstrip("\n")
    s = files.get(fn) or open("/repo/" + fn).read()
    assert s.count(old) == 1, (fn, s.count(old), old)
    files[fn] = s.replace(old, new)
out = ""
for fn, s in files.items():
    a = open("/repo/" + fn).read()
    out += "".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + fn, "b/" + fn))
open(d + "/patch.diff", "w").write(out)
json.dump(dict(property=prop, needs=needs, what_it_breaks=br), open(d + "/meta.json", "w"), indent=1)
