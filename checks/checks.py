"""What is run for each property"""
import importlib
import os

RULE_SITES = (
    "Generated call sites (format strings, types and attributes drawn from VERIF_SEED) are compiled against /repo and "
    "run on inputs sampled from the site's own grammar, edited versions of them, and random text; every outcome is "
    "compared with an independent reference matcher. A case is non-trivial if the input is not empty and is accepted by "
    "the format or longer than one byte; cases are distinct by (site, input)."
)
RULE_MEMORY = (
    "All allocations of the process are counted, per thread. Generated call sites (drawn from VERIF_SEED) are run on the same "
    "inputs again and again, hand-written ones on inputs never seen before but of the same shape, in one thread and in threads "
    "that come and go, and what remains allocated after each round must not keep growing; long inputs of three lengths are "
    "parsed, and the peak during the call must not grow with the length beyond the values the result owns. A case is one call "
    "with one input, distinct by both, non-trivial if the input is not empty."
)
ASSUME = [
    "the reference model (harness/monlib) is the meaning of the documentation",
    "std's FromStr implementations of the primitive types are correct",
]
# property -> list of (binary, profiles)
BINS = {p: ["p" + p[1:]] for p in
        "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P21 P23".split()}
RELEASE = {"P10", "P14"}


# properties with a module of their own
MODULES = {"P18": "p18", "P19": "p19", "P20": "p20", "P22": "p22"}
# properties whose generated sites are followed by a module
EXTRA = {"P13": "p13", "P14": "miri", "P15": "miri"}


def run_check(d, res):
    pid, tier = res.pid, res.tier
    if pid in MODULES:
        importlib.import_module(MODULES[pid]).check(d, res)
        return
    if pid not in BINS:
        raise d.Inconclusive("no check for " + pid)
    res.rules.append(RULE_MEMORY if pid == "P23" else RULE_SITES)
    res.assumptions += ["std and the regex crate themselves keep nothing"] if pid == "P23" else ASSUME
    for name in BINS[pid]:
        exe = d.build_bin(res, name, tier=tier)
        if exe:
            d.run_bin(res, exe, tier)
        if pid in RELEASE:
            exe = d.build_bin(res, name, "release", tier=tier)
            if exe:
                d.run_bin(res, exe, tier, "release ")
            if tier == "thorough":
                exe = d.build_bin(res, name, "release", tier=tier, env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "3"})
                if exe:
                    d.run_bin(res, exe, tier, "optimised ")
    if pid == "P15":
        # first uses need a fresh process each
        exe = d.build_bin(res, "p15", tier=tier)
        for k in range((9 if tier == "quick" else 150) if exe else 0):
            d.run_bin(res, exe, tier, "first uses ", env={"P15_ROUND": str(k)})
    if pid in EXTRA and not res.violations:
        importlib.import_module(EXTRA[pid]).check(d, res)


def setup(d):
    target = os.path.join(d.BUILD, "harness")
    for args in [["--bins"], ["--release"] + [a for p in sorted(RELEASE) for n in BINS[p] for a in ("--bin", n)]]:
        ok, errors = d.cargo_build(target, args)
        if not ok:
            print(errors[0][2])
            return 1
    # the dependencies of the compile-time monitors
    import ct
    import miri
    miri.setup(d)
    for tc, cmd in [(None, "check"), (None, "build"), ("nightly", "check")]:
        ct.compile_snippets(d, "warm", ["pub fn run() -> bool { ::sscanf::sscanf!(\"5\", \"{u8}\").is_ok() }\n"], toolchain=tc, cmd=cmd,
                            footer="fn main() {}\n" if cmd == "build" else None)
    return 0
