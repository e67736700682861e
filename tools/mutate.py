"""Random small changes to the crate: which of those that compile and pass the stable tests does no check see?
usage: python3 mutate.py LAB SEED [FILE-REGEX]   (endless; results in /tmp/mut/LAB.jsonl; scratch copies only)"""
import concurrent.futures, json, os, random, re, subprocess, sys, time
from lab import *

SWAPS = [(r"(?<![=!<>-])==", "!="), ("!=", "=="), (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>(?=\s)", ">="), (r"(?<=\s)<=(?=\s)", "<"), (r"(?<=\s)>=(?=\s)", ">"),
         (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), ("&&", "||"), (r"\|\|(?=\s)", "&&"), (r"\btrue\b", "false"),
         (r"\bfalse\b", "true"), (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bany\(", "all("), (r"\ball\(", "any("),
         (r"\.skip\(", ".take("), (r"\.take\(", ".skip("), (r"is_some", "is_none"), (r"is_none", "is_some"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\.z\b", ".y"), (r"\.y\b", ".z"), (r"\.x\b", ".z"),
         (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m[1]) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m[1]) - 1)),
         (r"(\d\.\d+)", lambda m: str(float(m[1]) + 1)), (r"\bis_empty\(\)", "is_empty() == false"), (r"!(?=[a-z(])", ""), (r"\bif (?!let)", "if !"), (r"\.\.=", ".."),
         (r"multispace0", "multispace1"), (r"1\.\.", "0.."), (r"0\.\.", "1.."), (r"\.trim\(\)", ""), (r"\.rev\(\)", ""), (r"\.filter\(", ".skip_while("), (r"\.unwrap_or_default\(\)", ".unwrap()"),
         (r"omitted\(\)", "inherited()"), (r"inherited\(\)", "omitted()"), (r"\bSome\((\w+)\)(?!\s*=[^=])", "None"), (r"\.clone\(\)", ""), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
         (r'"([^"\\]{2,})"', lambda m: '"' + m[1][:-1] + '"'), (r"''", "'"), (r"\bpreceded\b", "terminated"), (r"and_then", "map"), (r"\.find\(", ".rfind("), (r"_start", "_end"), (r"\bheight\b", "length"),
         (r"\blength\b", "height"), (r"\bX\b", "Y"), (r"\bY\b", "Z"), (r"\bZ\b", "X"), (r"\bAXIS\b", "NEG"), (r"relating_", "related_"), (r"related_", "relating_"), (r"\binsert\(", "remove("),
         (r"\bOk\(\(\)\)", "return Ok(())"), (r"\(([\w.&*]+), ([\w.&*]+)\)", lambda m: f"({m[2]}, {m[1]})"), (r"\b(self\.[\w.]+), (self\.[\w.]+)", lambda m: f"{m[2]}, {m[1]}"), (r"\bname\b", "id"),
         (r"\bstorey\b", "building"), (r"\bnot\(", "peek("), (r"opt\(", "("), (r"\.extend\(", ".clear(); let _ = ("), (r"-", ""), (r"\.abs\(\)", ""), (r"normalize\(\)", "into()"), (r"_or_zero", "")]


def candidates(rng, pat):
    out = []
    for d, _, fs in os.walk(REPO + "/ifc_rs/src"):
        for f in fs:
            p = os.path.relpath(d + "/" + f, REPO)
            if not f.endswith(".rs") or not re.search(pat, p):
                continue
            lines = open(f"{REPO}/{p}").read().split("\n")
            using = False
            for i, l in enumerate(lines):
                if "#[cfg(test)]" in l or "#[test]" in l or re.search(r"mod tests? ", l):
                    break
                s = l.strip()
                if re.match(r"(pub )?use\b", s):
                    using = True
                if using:
                    using = not s.endswith(";")
                    continue
                if "panic!(" in s or ".expect(" in s or "anyhow!" in s or "Link\"" in s or 'To' in s and 'format!' in s:
                    continue
                if s.startswith("Self: "):
                    continue
                if not s or s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use")) or s in "})({],;" or s.startswith("}") and len(s) < 4:
                    continue
                c = l.split("//")[0]
                for a, b in SWAPS:
                    for m in list(re.finditer(a, c))[:4]:
                        r = m.expand(b) if isinstance(b, str) and "\\" in b else (b(m) if callable(b) else b)
                        n = l[:m.start()] + r + l[m.end():]
                        if n != l:
                            out.append((p, i, i + 1, [n], a))
                if s.endswith((",", ";")) and s.count("(") == s.count(")") and not s.startswith("let "):
                    out.append((p, i, i + 1, [], "delete"))
                if s.endswith(",") and "self." in s and not re.search(r"\w ?[:=] |=>|format!|name", s) and i + 1 < len(lines) and lines[i + 1].strip().endswith(","):
                    out.append((p, i, i + 2, [lines[i + 1], l], "swap lines"))
    # every kind of change about equally often within a file
    rng.shuffle(out)
    by = {}
    for c in out:
        by.setdefault((c[0], c[4]), []).append(c)
    ks = list(by)
    while ks:
        rng.shuffle(ks)
        for k in list(ks):
            yield by[k].pop()
            if not by[k]:
                ks.remove(k)


def main():
    name, seed = sys.argv[1], int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else "."
    os.makedirs("/tmp/mut", exist_ok=True)
    log = f"/tmp/mut/{name}.jsonl"
    seen = set()
    for f in os.listdir("/tmp/mut"):
        for l in open("/tmp/mut/" + f):
            d = json.loads(l)
            seen.add((d["file"], d["line"], d["new"]))
    lab = Lab(name)
    props = [f"P{i:02}" for i in range(1, 100) if f'"P{i:02}"' in open(VERIF + "/harness/src/props.rs").read()]
    share = {p: int(os.environ.get("CASES", "25")) for p in props}
    wins = {p: 0 for p in props}
    lab.reset(); assert lab.tests() == [], "unchanged"
    for p, a, b, new, op in candidates(random.Random(seed), pat):
        key = (p, a + 1, "\n".join(new))
        if key in seen:
            continue
        lab.reset()
        path = f"{lab.repo}/{p}"
        t = open(path).read().split("\n")
        old = "\n".join(t[a:b])
        t[a:b] = new
        open(path, "w").write("\n".join(t))
        r = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "ifc_rs", "--features", "bevy_math/std"], cwd=lab.repo, env=ENV, capture_output=True)
        if r.returncode:
            continue
        bad = lab.tests(120)
        if bad is None or bad:
            res = "tests"
        else:
            if not lab.build():
                res = "harness does not build"
            else:
                res = "MISSED"
                order = sorted(props, key=lambda q: -wins[q])
                for q in order:
                    c, o = lab.check(q, cases=cases(q), timeout=120)
                    if c == 1:
                        wins[q] += 1
                        res = q
                        break
                    if c != 0:
                        res = f"MISSED ({q} {c})"
        with open(log, "a") as f:
            f.write(json.dumps({"file": p, "line": a + 1, "old": old, "new": "\n".join(new), "op": op, "res": res}) + "\n")


def cases(q):
    t = open(VERIF + "/harness/src/props.rs").read()
    m = re.search(rf'id: "{q}".*?quick: (\d+)', t, re.S)
    return max(1, int(m[1]) // 3)


main()
