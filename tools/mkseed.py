"""Makes and confirms a planted bug: python3 mkseed.py SPEC.py (id, prop, needs, breaks, edits, main)."""
import json, os, shutil, subprocess, sys
from lab import *

spec = {}
exec(open(sys.argv[1]).read(), spec)
lab = Lab("seed", harness=False)
lab.reset()
for f, old, new in spec["edits"]:
    p = f"{lab.repo}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w").write(s.replace(old, new))
d = f"{VERIF}/seeded/{spec['id']}"
os.makedirs(d, exist_ok=True)
diff = lab.git("diff").stdout
open(d + "/patch.diff", "w").write(diff)
open(d + "/main.rs", "w").write(spec["main"])
for f in ("demo.sh", "Cargo.toml.in", "Cargo.lock"):
    shutil.copy(f"{VERIF}/tools/seed_template/{f}", d)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
# changed lines must be lines of the original
base = lab.git("rev-list", "--max-parents=0", "HEAD").stdout.strip()
orig = {}
for l in diff.splitlines():
    if l.startswith("--- a/"):
        cur = lab.git("show", f"{base}:{l[6:]}").stdout.splitlines()
    elif l.startswith("-") and l[1:].strip() and l[1:] not in cur:
        print("NOTE: not an original line:", l)
bad = lab.tests()
print("failing stable tests:", bad)
demo = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=lab.repo, capture_output=True, text=True)
r1 = demo()
print("patched demo:", r1.returncode, (r1.stdout + r1.stderr)[-300:])
lab.reset()
r0 = demo()
print("clean demo:", r0.returncode, (r0.stdout + r0.stderr)[-300:])
ok = bad == [] and r1.returncode not in (0, 3, 4) and r0.returncode == 0
print("CONFIRMED" if ok else "REJECTED", spec["id"])
sys.exit(not ok)
