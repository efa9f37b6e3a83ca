"""Runs the programs of /verif/miri in Miri, which watches for undefined behaviour, data races and leaks"""
import concurrent.futures
import os
import re

BAD = ("Undefined Behavior", "Data race", "data race", "panicked at", "the evaluated program deadlocked", "memory leaked", "has overflowed its stack")


def target(d):
    return os.path.join(d.BUILD, "miri")


def one(d, name, arg=None, flags="", timeout=600):
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", target(d), "--bin", name]
    if arg is not None:
        cmd += ["--", str(arg)]
    return d.run(cmd, os.path.join(d.ROOT, "miri"), {"MIRIFLAGS": flags}, timeout)


def setup(d):
    """the sysroot and the dependencies"""
    try:
        d.run(["cargo", "+nightly", "miri", "setup", "--offline"], d.ROOT, {}, 600)
        one(d, "p14", "none")
    except d.Inconclusive:
        pass


def judge(d, res, what, result):
    rc, so, se = result
    n = sum(int(x) for x in re.findall(r"OBSERVED (\d+)", so))
    runs = len(re.findall(r"OBSERVED (\d+)", so))
    res.evaluations += n
    res.distinct += n
    res.count("Miri: " + what.split(" ")[0] + " executions", runs)
    res.count("Miri: calls", n)
    if rc != 0:
        hit = [b for b in BAD if b in se]
        if hit:
            at = se.find(hit[0])
            line = se[at:at + 200].splitlines()[0]
            res.violation("miri|%s|%s" % (what, line), "Miri, %s:\n%s" % (what, se[max(0, at - 200):at + 3000]))
        else:
            # Miri itself could not run this: nothing was observed
            res.notes.setdefault("miri", []).append("%s: no observation (exit %s): %s" % (what, rc, se[-300:]))
    return n


def check(d, res):
    try:
        warm = one(d, "p14", "none")  # builds; the argument ends it
        if "OBSERVED" not in warm[1] and "not a group" not in warm[2]:
            res.notes.setdefault("miri", []).append("not available: " + warm[2][-300:])
            return
        if res.pid == "P14":
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                jobs = [(g, ex.submit(one, d, "p14", g)) for g in (7, 0, 2, 4, 1, 3, 5, 6)]
                for g, j in jobs:
                    judge(d, res, "calls of group %d" % g, j.result())
        else:
            n = 8 if res.tier == "quick" else 128
            base = d.SEED * 1000
            judge(d, res, "schedules %d to %d of first uses" % (base, base + n), one(d, "p15", None, "-Zmiri-many-seeds=%d..%d" % (base, base + n), 800))
            if res.tier != "quick":
                judge(d, res, "schedules of more calls", one(d, "p15_deep", None, "-Zmiri-many-seeds=%d..%d" % (base, base + 7), 1500))
    except d.Inconclusive as e:
        res.notes.setdefault("miri", []).append(str(e)[:500])
