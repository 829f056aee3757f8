#!/usr/bin/env python3
"""overlay.py OUT_DIR: copies of the memfs sources that import verif/harness/verifsync as sync,
and the overlay file that puts them in place of the originals."""
import glob, json, os, re, sys
out = sys.argv[1]
repl = {}
for p in sorted(glob.glob("/repo/memfs/*.go")):
    if p.endswith("_test.go"):
        continue
    s = open(p, encoding="utf-8").read()
    # Only within the import section, and keeping a name the file gives to the package.
    m = re.search(r'^(?:import\s*\(.*?^\)|import\s+[^\n(]+$)(?:\s*import\s*(?:\(.*?^\)|[^\n(]+$))*', s, re.S | re.M)
    if not m:
        continue
    def sub(k):
        name = k.group(2) or "sync"
        return f'{k.group(1)}{name} "verif/harness/verifsync"'
    imp = re.sub(r'(^|[\s(;])(?:([A-Za-z_.][A-Za-z0-9_]*)\s+)?"sync"', lambda k: sub(k) if k.group(2) != "import" else f'{k.group(1)}import sync "verif/harness/verifsync"', m.group(0), flags=re.M)
    if imp == m.group(0):
        continue
    q = os.path.join(out, os.path.basename(p))
    open(q, "w", encoding="utf-8").write(s[:m.start()] + imp + s[m.end():])
    repl[p] = q
if not repl:
    sys.exit("no memfs source imports sync")
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"))
