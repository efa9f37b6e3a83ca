#!/usr/bin/env python3
"""Driver of all checks: `check.py <property> [quick|thorough]`, `check.py setup`.

Builds the monitors against /repo's current working tree, runs them, and turns what they observed
into a verdict: exit 0 (held on everything observed), exit 1 with a VIOLATION line, or exit 2 (no
verdict: build of /repo failed, watchdog, resources).
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
EVIDENCE = os.path.join(ROOT, "evidence")
HARNESS = os.path.join(ROOT, "harness")
STABLE = "1.90.0"
sys.path.insert(0, os.path.join(ROOT, "checks"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
START = time.time()


class Inconclusive(Exception):
    pass


class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.evaluations = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.violations = []  # (sig, what)
        self.rules = []
        self.assumptions = []
        self.notes = {}

    def violation(self, sig, what):
        self.violations.append((sig, what))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s, limit=24):
        if len(self.samples) < limit:
            self.samples.append(s if len(s) < 900 else s[:900] + "...")

    def merge(self, rep, tag=""):
        self.evaluations += rep["evaluations"]
        self.distinct += rep["distinct_nontrivial"]
        for k, v in rep["counters"].items():
            self.count(tag + k, v)
        for s in rep["samples"]:
            self.sample(s)
        for v in rep["violations"]:
            self.violation(v["sig"], v["what"])


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "sscanf_macro"):
        for d, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            files += [os.path.join(d, n) for n in names]
    files += [os.path.join(REPO, n) for n in ("Cargo.toml", "Readme.md", "Changelog.md")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def fresh(target):
    """cargo looks at modification times, which say nothing in a copied sandbox: if the content of
    /repo is not what was built last, forget the builds of its crates"""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo-hash")
    now = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        for pat in ("sscanf-*", "sscanf_macro-*"):
            for d in glob.glob(os.path.join(target, "**", ".fingerprint", pat), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
    return stamp, now


def run(cmd, cwd, env=None, timeout=600, check=False):
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Inconclusive("watchdog: %s after %ss" % (" ".join(cmd)[:200], timeout))
    return p.returncode, out, err


def cargo_build(target, args, toolchain=STABLE, env=None, tier="quick", timeout=800, cwd=HARNESS, seed=None):
    """returns (ok, list of rendered error messages with spans: (package, files, text))"""
    stamp, now = fresh(target)
    e = {"VERIF_SEED": str(SEED if seed is None else seed), "VERIF_TIER": tier}
    e.update(env or {})
    cmd = ["cargo", "+" + toolchain, "build", "--offline", "--message-format=json", "--target-dir", target] + args
    rc, out, err = run(cmd, cwd, e, timeout)
    errors = []
    ours = True
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msg = m["message"]
            if not msg["spans"] and msg["message"].startswith("aborting"):
                continue
            errors.append((m["target"]["name"], [s["file_name"] for s in msg["spans"]], msg["rendered"]))
    if rc == 0:
        with open(stamp, "w") as f:
            f.write(now)
        return True, []
    if not errors:
        raise Inconclusive("build failed: " + err[-3000:])
    return False, errors


def build_bin(res, name, profile="dev", tier="quick", target=None, extra=(), **kw):
    """Builds a monitor. The call sites in it are well-formed, so the compiler rejecting them is a
    violation; errors in the crates of /repo themselves are no verdict."""
    target = target or os.path.join(BUILD, "harness")
    args = ["--bin", name] + (["--release"] if profile == "release" else []) + list(extra)
    ok, errors = cargo_build(target, args, tier=tier, **kw)
    if not ok:
        own = [e for e in errors if e[0] not in ("sscanf", "sscanf_macro")]
        if len(own) != len(errors):
            raise Inconclusive("/repo does not build:\n" + errors[0][2])
        for who, files, text in own[:10]:
            res.violation("compile|" + text.splitlines()[0], "a well-formed use does not compile:\n" + text[:3000])
        return None
    sub = "release" if profile == "release" else "debug"
    triple = next((extra[i + 1] for i, a in enumerate(extra) if a == "--target"), "")
    return os.path.join(target, triple, sub, name)


def run_bin(res, exe, tier, tag="", env=None, timeout=700, wrapper=(), seed=None):
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    out = os.path.join(BUILD, "out", "%s-%s%s.json" % (res.pid, os.path.basename(exe), tag.strip().replace(" ", "-")))
    if os.path.exists(out):
        os.unlink(out)
    e = {"VERIF_OUT": out, "VERIF_SEED": str(SEED if seed is None else seed), "VERIF_TIER": tier}
    e.update(env or {})
    rc, so, se = run(list(wrapper) + [exe], ROOT, e, timeout)
    if rc < 0 and -rc == signal.SIGKILL:
        raise Inconclusive("%s was killed (memory?)" % exe)
    if not os.path.exists(out):
        text = "%s ended with %s without a report\n%s\n%s" % (exe, rc, so[-2000:], se[-3000:])
        if rc < 0 or "stack overflow" in se or "panicked at" in se:
            res.violation("crash|" + os.path.basename(exe), text)
            return None
        raise Inconclusive(text)
    with open(out) as f:
        rep = json.load(f)
    if rep["evaluations"] == 0:
        raise Inconclusive("%s observed nothing" % exe)
    res.merge(rep, tag)
    if rc != 0 and not rep["violations"]:
        raise Inconclusive("%s: exit %s\n%s" % (exe, rc, se[-2000:]))
    return rep, so, se


def known_findings():
    """lines `known: property=<id> sig=<signature> :: <what>`; `fixed:` lines suppress nothing"""
    out = []
    try:
        for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), encoding="utf-8"):
            m = re.match(r"known: property=(\w+) sig=(.*?) :: (.*)", line.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def finish(res):
    os.makedirs(EVIDENCE, exist_ok=True)
    known = [(s, w) for p, s, w in known_findings() if p == res.pid]
    new, seen, listed = [], set(), set()
    for sig, what in res.violations:
        hit = [w for s, w in known if s == sig]
        if hit:
            listed.add(hit[0])
        elif sig not in seen:
            seen.add(sig)
            new.append((sig, what))
    doc = {
        "property": res.pid,
        "tier": res.tier,
        "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": res.distinct,
            "rule": " ".join(res.rules),
            "samples": res.samples[:24] or ["(none)"],
            "observed": dict(sorted(res.counters.items())),
        },
        "assumptions": res.assumptions + ["not observed in this run: %s: %s" % (k, "; ".join(v)[:600]) for k, v in res.notes.items()],
        "wall_s": round(time.time() - START, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, res.pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for w in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (res.pid, w))
    if new:
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.txt" % (res.pid, res.tier, SEED))
        with open(path, "w") as f:
            f.write("property %s, VERIF_SEED=%d, %s: rerun `VERIF_SEED=%d python3 %s/check.py %s %s`\n\n" %
                    (res.pid, SEED, res.tier, SEED, ROOT, res.pid, res.tier))
            for sig, what in new:
                f.write("signature: %s\n%s\n\n" % (sig, what))
        for sig, what in new[:3]:
            print(what[:1500])
            print()
        print("%d violation(s)" % len(new))
        print("VIOLATION property=%s replay=%s" % (res.pid, path))
        return 1
    print("property %s: held on %d evaluations (%d distinct and non-trivial), %.1fs" %
          (res.pid, res.evaluations, res.distinct, time.time() - START))
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    import checks
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return checks.setup(sys.modules["__main__"])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    res = Result(pid, tier)
    try:
        checks.run_check(sys.modules["__main__"], res)
    except Inconclusive as e:
        if not res.violations:
            print("INCONCLUSIVE: %s" % e)
            return 2
        log("inconclusive part: %s" % e)
    return finish(res)


if __name__ == "__main__":
    sys.exit(main())
