"""Tries candidate bugs quickly: python3 trybugs.py FILE [ID...] (BUGS = [(id, property, [(file, old, new)...])])."""
import sys
from lab import *

spec = {}
exec(open(sys.argv[1]).read(), spec)
lab = Lab(os.environ.get("LAB", "try"))
for i, p, edits in spec["BUGS"]:
    if sys.argv[2:] and i not in sys.argv[2:]:
        continue
    lab.reset()
    bad = None
    for f, old, new in edits:
        f = f"{lab.repo}/{f if '/' in f and f.startswith('ifc_rs') else 'ifc_rs/src/' + f}"
        s = open(f).read()
        if s.count(old) != 1:
            bad = (f, s.count(old))
            break
        open(f, "w").write(s.replace(old, new))
    if bad:
        print(i, "EDIT DOES NOT MATCH", bad, flush=True); continue
    if not lab.build():
        print(i, "DOES NOT BUILD", flush=True); continue
    c, o = lab.check(p)
    t = [] if os.environ.get("NOTEST") else lab.tests()
    line = next((l for l in o.splitlines() if "VIOLATION" in l), "")
    print(f"{i}: {p} {'caught' if c == 1 else 'MISSED' if c == 0 else 'ODD %s' % c} tests: {t}", flush=True)
lab.reset()
