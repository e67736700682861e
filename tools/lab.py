"""Shared parts of the tools which try changes to the crate in a scratch copy (never in /repo)."""
import json, os, re, shutil, subprocess, sys

REPO, VERIF = "/repo", "/verif"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"],
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", INSTA_UPDATE="no", RUST_BACKTRACE="0")


class Lab:
    """a copy of the crate and of the harness under /tmp/lab/<name>"""

    def __init__(self, name, harness=True):
        self.dir = f"/tmp/lab/{name}"
        self.repo = self.dir + "/repo"
        self.verif = self.dir + "/verif"
        if not os.path.isdir(self.repo):
            os.makedirs(self.dir, exist_ok=True)
            subprocess.run(["git", "clone", "-q", REPO, self.repo], check=True)
            shutil.copy("/repo/Cargo.lock", self.repo)
        self.sync()
        if harness:
            self.sync_harness()

    def sync(self):
        head = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
        self.git("fetch", "-q", "origin")
        self.git("checkout", "-q", "-f", head)

    def sync_harness(self):
        os.makedirs(self.verif + "/harness/src", exist_ok=True)
        for f in os.listdir(VERIF + "/harness/src"):
            a, b = f"{VERIF}/harness/src/{f}", f"{self.verif}/harness/src/{f}"
            if not os.path.exists(b) or open(a).read() != open(b).read():
                shutil.copy(a, b)
        shutil.copy(VERIF + "/harness/Cargo.lock", self.verif + "/harness")
        shutil.copy(VERIF + "/known-findings.txt", self.verif)
        t = open(VERIF + "/harness/Cargo.toml").read().replace("/repo/ifc_rs", self.repo + "/ifc_rs")
        open(self.verif + "/harness/Cargo.toml", "w").write(t)

    def git(self, *a):
        return subprocess.run(["git", "-C", self.repo, *a], capture_output=True, text=True)

    def reset(self):
        self.git("checkout", "-q", "--", ".")

    def tests(self, timeout=400):
        """the stable tests which do not pass, or None if it does not build"""
        env = dict(ENV, CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        log = self.dir + "/test.log"
        with open(log, "w") as f:
            try:
                subprocess.run(["cargo", "test", "--workspace", "--features", "bevy_math/std", "--no-fail-fast", "--offline", "--", "--test-threads", "8"],
                               cwd=self.repo, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                return ["timeout"]
        text = open(log).read()
        if re.search(r"^error", text, re.M) and "Running" not in text:
            return None
        out = self.dir + "/out.json"
        subprocess.run(["python3", "/opt/vp/results.py", out, "cargo:" + log], stdout=subprocess.DEVNULL)
        ok = set(json.load(open(out))["passed"])
        return [t for t in STABLE if t not in ok]

    def build(self):
        env = dict(ENV, RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="1")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=self.verif + "/harness", env=env, capture_output=True, text=True)
        return r.returncode == 0

    def check(self, prop, seed=1, cases=None, timeout=600, tier="quick"):
        env = dict(ENV, VERIF_DIR=self.verif, VERIF_SEED=str(seed), VERIF_TIER=tier)
        if cases:
            env["VERIF_CASES"] = str(cases)
        try:
            r = subprocess.run([self.verif + "/harness/target/debug/ifcmon", prop], cwd=self.verif, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 9, "timeout"
        return r.returncode, r.stdout
