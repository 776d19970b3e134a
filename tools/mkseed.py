#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< "needs\n---\nbreaks\n---\nold\n---\nnew[\n---\nold2\n---\nnew2]" : writes patch.diff and
meta.json of a planted bug (leaves /repo clean)."""
import sys, subprocess, json, os
i, prop, f = sys.argv[1:4]
parts = sys.stdin.read().split("\n---\n")
needs, breaks, rest = parts[0], parts[1], parts[2:]
rest[-1] = rest[-1].rstrip("\n")
files = f.split(",")
edits = list(zip(rest[0::2], rest[1::2]))
for n, (a, b) in enumerate(edits):
    p = "/repo/code/latte/" + files[min(n, len(files)-1)]
    s = open(p, encoding="latin-1", newline="").read()
    if "\r\n" in s:
        a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    assert s.count(a) == 1, (p, s.count(a), a)
    open(p, "w", encoding="latin-1", newline="").write(s.replace(a, b))
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
open(d + "/patch.diff", "wb").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
