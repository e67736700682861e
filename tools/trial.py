"""Which checks catch which planted bugs: python3 trial.py [ID...] (scratch copies only)."""
import concurrent.futures, json, os, subprocess, sys
from lab import *

ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
props = [f"P{i:02}" for i in range(1, 100) if f'"P{i:02}"' in open(VERIF + "/harness/src/props.rs").read()]
own = os.environ.get("OWN")
lab = Lab("trial")
for i in ids:
    d = f"{VERIF}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    lab.reset()
    r = lab.git("apply", d + "/patch.diff")
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr[:200]); continue
    if not lab.build():
        print(i, "HARNESS DOES NOT BUILD"); continue
    todo = [p] if own else props
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = dict(zip(todo, ex.map(lab.check, todo)))
    hit = [q for q, (c, o) in res.items() if c == 1]
    odd = [(q, c) for q, (c, o) in res.items() if c not in (0, 1)]
    print(f"{i}: {p} {'CAUGHT' if p in hit else 'MISSED'}; by {hit} {odd or ''}", flush=True)
lab.reset()
