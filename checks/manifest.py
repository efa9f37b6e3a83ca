#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "reference-model monitor (runtime verification): outcomes of generated call sites compared with an independent matcher"
COMPILE = "monitor over compiler diagnostics: generated programs are run through the real macros in the real compiler, an oracle judges every diagnostic"
T = {
    "P01": (MODEL, "seeded random formats x sampled, edited and random inputs; model covers the whole documented language"),
    "P02": (MODEL, "every ASCII and hostile character in raw and ordinary literals; exact text and all single edits"),
    "P03": ("round-trip monitor: values are written by std formatting and parsed back by the real code, compared bit by bit", "8-bit integers exhaustively, bounds and powers of all others, all float exponents, all chars; generated formats and derived types"),
    "P04": (MODEL, "all 12 types x all 44 spellings; targeted digit strings around every limit"),
    "P05": (MODEL + "; differential against str::parse", "all built-in types; exhaustive short strings and random long ones"),
    "P06": (MODEL, "marker types remember type and text; up to 24 placeholders"),
    "P07": (MODEL, "generated regexes and hand-written exotic ones"),
    "P08": (MODEL + " with event log", "generated struct definitions"),
    "P09": (MODEL + " with event log", "generated enum definitions, all casings"),
    "P10": (MODEL + "; panic monitor", "generated nestings, debug and release builds, wrong counts"),
    "P11": ("differential monitor: two calls of the real code on each input, and the reference model", "generated types"),
    "P12": ("monitor relating the regex handed out to the outcomes of parsing", "generated formats; matches, captures, identity"),
    "P13": (MODEL + " with address monitor; compiler accept/reject oracle for lifetimes", "all input kinds"),
    "P14": ("panic/abort monitor on hostile inputs, debug and release, Miri on a sample", "generated and hand-written formats"),
    "P15": ("concurrent stress with per-call oracle, Miri (data races, undefined behaviour) on first uses, history permutation monitor", "barrier-started first uses"),
    "P16": ("event-log monitor: order, count and prerequisites of conversions against the model's log", "types that log every conversion"),
    "P17": ("monitor over error values: chain, types and texts against the model", "generated types with failing conversions"),
    "P18": (COMPILE, "3200 (thorough: 23000) generated programs with a known mistake, random soups and damaged formats; rejected, with a message of the crate, without a panic"),
    "P19": (COMPILE, "printed copy and carets on stable, exact spans on nightly, for every kind of fault between arbitrary text; marked tokens for all other errors"),
    "P20": (COMPILE + "; the accepted programs are executed and check their own results", "40 documented uses x 48 surroundings (930 of 1920 per run, all in thorough), denied lints, editions 2018-2024, debug and release; thorough: three toolchains"),
    "P21": (MODEL, "seeded random unescaped formats; 80 hand-written regexes as unescaped formats, the regex crate as oracle"),
    "P22": ("monitor over repeated compilations: expanded code, errors and metadata of the same parts compared between processes, environments, orders, companies and builds of the macros", "seeded crates of 240 (thorough: 660) valid and 450 (2250) invalid parts; 66 (284) compilations"),
    "P23": ("allocation monitor: every allocation of the process is counted, what remains after and is taken during calls is compared between rounds, inputs, threads and input lengths", "370 generated and 33 hand-written calls, 600000 calls; inputs up to 4 MiB"),
}
NOT_YET = {}
checks = []
for pid, (tech, note) in sorted(T.items()):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": i, "reason": NOT_YET.get(i, "check not built yet")} for i in ids if i not in T]
doc = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
