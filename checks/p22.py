"""P22: the same source always compiles to the same thing"""
import json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import ct, p18, p20

GOOD = "#![allow(warnings)]\n"
CASES = ["lowercase", "UPPERCASE", "lower case", "UPPER CASE", "camelCase", "PascalCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "CaseSensitive", "CaseInsensitive"]
NUMBERS = ["u8", "i16", "u32", "i64", "u128", "usize"]
LITERAL = ["", " ", ",", "x", " - ", "日", "({{", "}})", "é", "[a]"]


# ------------------------------------------------------------------ programs that compile

def field(r, name, lts, generics):
    """(declaration, options of its placeholder or None)"""
    k = r.randrange(12)
    pre = "pub %s: " % name if name else "pub "
    if lts:
        lt = lts.pop()
        return pre + r.choice(["&%s str", "std::borrow::Cow<%s, str>", "& %s str", "::std::borrow::Cow<%s, ::std::primitive::str>"]) % lt, r.choice(["", ":/[a-z]+/", ""])
    if generics:
        return pre + generics.pop(), ":/[^;]+/"
    if k < 4:
        return pre + r.choice(NUMBERS), r.choice(["", ":x", ":#b", ":r7", ""])
    if k == 4:
        return pre + "String", r.choice(["", ":/a|b/"])
    if k == 5:
        return "#[sscanf(default)] " + pre + "u8", None
    if k == 6:
        return "#[sscanf(default = 5 + 5)] " + pre + "u8", None
    if k == 7:
        return "#[sscanf(map = |x: u8| x as u64)] " + pre + "u64", r.choice(["", ":x"])
    if k == 8:
        return "#[sscanf(filter_map = |x: u8| x.checked_mul(2))] " + pre + "u8", ""
    if k == 9:
        return "#[sscanf(from = u8)] " + pre + "u64", ""
    if k == 10:
        return "#[sscanf(try_from = u64)] " + pre + "u8", r.choice(["", ":o"])
    return pre + "f64", ""


def fields(r, named, lts, generics):
    """(body, format)"""
    n = max(r.randint(1, 7), len(lts) + len(generics))
    lts, generics = list(lts), list(generics)
    decl, places = [], []
    order = list(range(n))
    for i in order:
        name = "f%d" % i if named else ""
        d, o = field(r, name, lts, generics)
        decl.append(d)
        if o is not None:
            places.append("{%s%s}" % (name or i, o))
    r.shuffle(places)
    fmt = r.choice(LITERAL)
    for p in places:
        fmt += p + r.choice(LITERAL[1:])
    # the order of declaration should not be the order of lifetimes
    body = ", ".join(decl)
    return ("{ %s }" if named else "(%s)") % body, fmt


def parameters(r):
    """(lifetimes, generics, text after the name, where clause)"""
    names = r.sample(p20.LIFETIMES, r.choice([0, 1, 2, 2, 3, 4, 6]))
    generics = r.sample(["A", "B", "T", "U", "V"], r.choice([0, 0, 0, 1, 2, 3]))
    text = ", ".join(names + generics)
    where = "where " + ", ".join("%s: std::str::FromStr + 'static, <%s as std::str::FromStr>::Err: std::error::Error + 'static" % (g, g) for g in generics) if generics else ""
    return names, generics, "<%s>" % text if text else "", where


def struct(r):
    lts, gs, text, where = parameters(r)
    shuffled = list(lts)
    r.shuffle(shuffled)
    named = r.random() < 0.6
    body, fmt = fields(r, named, shuffled, gs)
    attr = r.choice(["%s", "format = %s"]) % ct.literal(fmt, r)
    head = "#[derive(Debug, sscanf::FromScanf)]\n#[sscanf(%s)]\npub struct S%s " % (attr, text)
    return head + (where + " " + body if named else body + " " + where + ";")


def enum(r):
    lts, gs, text, where = parameters(r)
    variants, left_l, left_g = [], list(lts), list(gs)
    n = r.randint(1, 6)
    for i in range(n):
        last = i == n - 1
        take = left_l if last else [left_l.pop() for _ in range(min(len(left_l), r.randint(0, 3)))]
        takeg = left_g if last else [left_g.pop() for _ in range(min(len(left_g), r.randint(0, 1)))]
        named = r.random() < 0.5
        body, fmt = fields(r, named, take, takeg)
        variants.append("#[sscanf(%s)]\nV%d %s" % (r.choice(["%s", "format = %s"]) % ct.literal("v%d" % i + fmt, r), i, body.replace("pub ", "")))
        if r.random() < 0.3:
            variants.append("#[sscanf(skip)] W%d(u8)" % i)
    return "#[derive(Debug, sscanf::FromScanf)]\npub enum E%s %s { %s }" % (text, where, ",\n".join(variants))


def autogen(r):
    names = r.sample(["Alpha", "beta", "GammaDelta", "Item2", "HTTPServer", "x_y", "Zeta", "OneTwoThree", "Öl", "Q"], r.randint(1, 8))
    out = []
    for n in names:
        k = r.randrange(8)
        out.append({0: "#[sscanf(skip)] %s", 1: '#[sscanf("x{}")] %s(u8)', 2: "#[sscanf(skip)] %s { a: String }"}.get(k, "%s") % n)
    a = "autogen" if r.random() < 0.2 else '%s = "%s"' % (r.choice(["autogen", "autogenerate"]), r.choice(CASES))
    return "#[derive(Debug, sscanf::FromScanf)]\n#[sscanf(%s)]\npub enum A { %s, Last }" % (a, ", ".join(out))


def call(r):
    n = r.randint(0, 9)
    types = [r.choice(NUMBERS + ["str", "String", "char", "bool", "f64", "std::borrow::Cow<str>"]) for _ in range(r.randint(1, 5))]
    fmt, used, nxt = r.choice(LITERAL), set(), 0
    for _ in range(n):
        k = r.randrange(3)
        if k == 0 and nxt < len(types):
            fmt += "{}"
            used.add(nxt)
            nxt += 1
        elif k == 1:
            i = r.randrange(len(types))
            used.add(i)
            fmt += "{%d}" % i
        else:
            fmt += "{%s}" % r.choice(["u8", "str:/[a-z]*/", "i8:x", "f32", "String", "&str"]).replace("&str", "str")
        fmt += r.choice(LITERAL[1:])
    for i in range(len(types)):
        if i not in used:
            fmt += "{%d}" % i + r.choice(LITERAL[1:])
    t = "".join(", " + t for t in types)
    m = r.choice(["sscanf!(i, %s%s)", "sscanf!(i, %s%s,)", "sscanf_get_regex!(%s%s)"]) % (ct.literal(fmt, r), t)
    return "pub fn f(i: &str) { let _ = sscanf::%s; }" % m


def good(r, n):
    out = []
    for i in range(n):
        out.append([struct, struct, enum, enum, autogen, call][i % 6](r))
    for name, items, expr in p20.USES:
        if "//" in items + expr or "/*" in items + expr:
            continue  # the printer puts comments wherever it thinks they belong
        pre = "#![allow(deprecated)] " if expr.startswith("OLD") else ""
        out.append("%s%s\npub fn run() -> bool { %s }" % (pre, items, expr[3:] if pre else expr))
    return out


# ------------------------------------------------------------------ programs that do not

def several(r):
    """more than one mistake of the same kind at the same place"""
    k = r.randrange(8)
    names = r.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"], r.randint(2, 6))
    if k == 0:
        a = r.sample(['format = "{a}"', 'format_unescaped = "{a}"', "transparent", '"{a}"'], r.randint(2, 3))
        return "#[derive(sscanf::FromScanf)]\n" + r.choice(["#[sscanf(%s)]" % ", ".join(a), "\n".join("#[sscanf(%s)]" % x for x in a)]) + "\nstruct S { a: u8 }"
    if k == 1:
        a = r.sample(["default", "map = |x: u8| x", "filter_map = |x: u8| Some(x)", "from = u8", "try_from = u8"], r.randint(2, 5))
        return '#[derive(sscanf::FromScanf)]\n#[sscanf("{a}")]\nstruct S { ' + r.choice(["#[sscanf(%s)]" % ", ".join(a), " ".join("#[sscanf(%s)]" % x for x in a)]) + " a: u8 }"
    if k == 2:
        return '#[derive(sscanf::FromScanf)]\n#[sscanf("{%s}")]\nstruct S { %s }' % (r.choice(names), ", ".join("%s: u8" % n for n in names))
    if k == 3:
        return '#[derive(sscanf::FromScanf)]\n#[sscanf("%s")]\nstruct S { a: u8 }' % "".join("{%s}" % n for n in names)
    if k == 4:
        return 'fn f() { let _ = sscanf::sscanf!("x", "{}", %s); }' % ", ".join(r.choice(NUMBERS) for _ in names)
    if k == 5:
        return 'fn f() { let _ = sscanf::sscanf!("x", "%s", u8); }' % "".join("{}" for _ in names)
    if k == 6:
        a = r.sample(['format = "{a}"', 'format_unescaped = "{a}"', "transparent", "skip"], r.randint(2, 4))
        return "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(%s)] A { a: u8 }, %s }" % (", ".join(a), ", ".join("#[sscanf(%s)] B%d" % (n, i) for i, n in enumerate(names)))
    return "#[derive(sscanf::FromScanf)]\n#[sscanf(%s)]\nenum E { %s }" % (r.choice(["autogen", 'autogen = "bob"', ", ".join(names)]), ", ".join("A%d(u8)" % i for i in range(len(names))))


def wrong(r, n):
    out = [several(r) for _ in range(n // 2)]
    cases = [c for c in p18.generate(r, False) if "\r" not in c[1] and "\0" not in c[1]]
    return out + [c[1] for c in r.sample(cases, n)]


# ------------------------------------------------------------------ observations

ENV = ["LANG", "LC_ALL", "TERM", "TZ", "USER", "CARGO_PKG_NAME", "CARGO_CRATE_NAME", "CARGO_MANIFEST_DIR", "CARGO_PRIMARY_PACKAGE", "OUT_DIR", "PROFILE", "DEBUG",
       "OPT_LEVEL", "TARGET", "HOST", "SOURCE_DATE_EPOCH", "NO_COLOR", "CI", "DOCS_RS", "RUST_BACKTRACE", "SSCANF", "SSCANF_DEBUG", "DEBUG_SSCANF", "CARGO", "RUST_LOG", "NUM_JOBS",
       "CARGO_PKG_VERSION", "CARGO_CFG_DEBUG_ASSERTIONS", "CARGO_FEATURE_STD", "CARGO_ENCODED_RUSTFLAGS", "HOSTNAME", "RUST_MIN_STACK"]
VALUES = ["1", "0", "", "x", "de_DE.UTF-8", "/nowhere", "true", "debug", "33554432"]


def environment(r):
    e = {}
    for k in r.sample(ENV, r.randint(0, 12)):
        v = r.choice(VALUES)
        if k == "RUST_MIN_STACK":
            v = "33554432"
        if k in ("RUST_LOG", "SOURCE_DATE_EPOCH"):
            v = "1" if k == "SOURCE_DATE_EPOCH" else "off"
        if k == "CARGO_ENCODED_RUSTFLAGS":
            v = ""
        e[k] = v
    return e


class Crate:
    """the crates of /repo, as built for one variant of the macros"""

    def __init__(self, d, name, extra):
        self.d = d
        base = os.path.join(d.BUILD, "ct", name)
        os.makedirs(base, exist_ok=True)
        with open(os.path.join(base, "lib.rs"), "w") as f:
            f.write("pub use sscanf::*;\n")
        with open(os.path.join(base, "Cargo.toml"), "w") as f:
            f.write(ct.CARGO % {"name": name, "edition": "2021", "extra": extra, "kind": "lib", "kindname": ""})
        shutil.copyfile(os.path.join(d.HARNESS, "Cargo.lock"), os.path.join(base, "Cargo.lock"))
        target = os.path.join(d.BUILD, "ct-target-" + d.STABLE)
        stamp, now = d.fresh(target)
        rc, so, se = d.run(["cargo", "+" + d.STABLE, "build", "--offline", "--message-format=json", "--target-dir", target], base, {"CARGO_INCREMENTAL": "0"}, 600)
        if rc:
            raise d.Inconclusive("/repo does not build:\n" + se[-2000:])
        with open(stamp, "w") as f:
            f.write(now)
        self.lib = None
        for line in so.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "sscanf":
                self.lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
        self.deps = os.path.join(target, "debug", "deps")

    def rustc(self, base, text, args, env):
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        with open(os.path.join(base, "lib.rs"), "w") as f:
            f.write(text)
        e = {"RUSTC_BOOTSTRAP": "1"}
        e.update(env)
        return self.d.run(["rustc", "+" + self.d.STABLE, "--edition", "2021", "--crate-name", "observed", "--crate-type", "lib", "lib.rs", "-L", "dependency=" + self.deps,
                           "--extern", "sscanf=" + self.lib] + args, base, e, 300)

    def expansions(self, base, mods, order, env):
        """number of the module -> its code after expansion"""
        rc, so, se = self.rustc(base, GOOD + "".join("pub mod m%d {\n%s\n}\n" % (n, mods[n]) for n in order), ["-Zunpretty=expanded"], env)
        if rc or "\nerror" in "\n" + se:
            return None, se
        parts = re.split(r"^pub mod m(\d+) \{$", so, flags=re.M)
        # the printer chooses line breaks by the places of the tokens
        return {int(n): re.sub(r"\s+", "", t).replace(",", ",\n").replace(";", ";\n") for n, t in zip(parts[1::2], parts[2::2])}, se

    def diagnostics(self, base, mods, order, env):
        """number of the module -> the errors of the macros in it, in order, relative to its start"""
        text = p18.HEADER
        starts = []
        for n in order:
            starts.append((len(text.encode()), n))
            text += "mod m%d { use crate::types; %s\n}\n" % (n, mods[n])
        rc, so, se = self.rustc(base, text, ["--error-format=json", "--emit=metadata", "-o", "x.rmeta"], env)
        out = {n: [] for n in order}
        for line in se.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m["level"] != "error" or m["code"] or not m["spans"]:
                continue
            spans = []
            for s in m["spans"]:
                while s["expansion"] and not s["file_name"].endswith("lib.rs"):
                    s = s["expansion"]["span"]
                spans.append((s["byte_start"], s["byte_end"], s["is_primary"], s["label"]))
            a, n = max(x for x in starts if x[0] <= spans[0][0])
            rel = [(x - a, y - a, p, l) for x, y, p, l in spans]
            out[n].append(repr((m["message"].replace("mod m%d " % n, "mod "), [c["message"] for c in m["children"]], rel)))
        if rc >= 0 and not any(out.values()) and len(order) > 50:
            return None, se
        return {n: "\n".join(v) for n, v in out.items()}, se


def compare(res, what, mods, first, other, how):
    for n, t in sorted(other.items()):
        res.evaluations += 1
        res.count("%s compared" % what)
        res.count("%s compared: %s" % (what, how))
        if first.get(n) != t:
            a, b = first.get(n, "").split("\n"), t.split("\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            res.violation("%s|%s" % (what, mods[n]), "%s of\n%s\nare not the same (%s), from line %d on:\n%s\n--- instead of\n%s" % (
                what, mods[n][:2500], how, k + 1, "\n".join(b[k:k + 4])[:1500], "\n".join(a[k:k + 4])[:1500]))


def check(d, res):
    thorough = res.tier == "thorough"
    res.rules.append("A seeded crate with derived types, enums and calls (several lifetimes, generics, fields and attributes each) and one full of mistakes (several of a kind at once) are put "
                     "through the compiler again and again: in new processes, in varied environments and directories, with its parts in other orders and in other company, and with the macros "
                     "built with optimisations and without debug assertions. A monitor compares the expanded code of each part, the errors with their places, and the compiled metadata. An "
                     "evaluation is one part of one compilation compared with the first; distinct cases are the parts.")
    res.assumptions += ["rustc's own output is reproducible, as far as it is compared"]
    r = ct.rng(d.SEED, "p22")
    plain = Crate(d, "p22", "")
    opt = Crate(d, "p22o", "[profile.dev.package.sscanf_macro]\nopt-level = 3\ndebug-assertions = false\noverflow-checks = false\n")
    root = os.path.join(d.BUILD, "ct", "p22runs")
    jobs = []
    goods, wrongs = good(r, 600 if thorough else 180), wrong(r, 1500 if thorough else 300)
    for what, mods, f in [("expansions", goods, "expansions"), ("errors", wrongs, "diagnostics")]:
        everything = list(range(len(mods)))
        for k in range(40 if thorough else 9):
            jobs.append((what, mods, f, plain, everything, environment(r) if k else {}, "another process"))
        for k in range(30 if thorough else 8):
            order = r.sample(everything, [len(everything), len(everything) // 2, 60][k % 3])
            jobs.append((what, mods, f, plain, order, environment(r), "other order or company"))
        for k in range(60 if thorough else 12):
            jobs.append((what, mods, f, plain, [r.choice(everything)], {}, "alone"))
        for k in range(10 if thorough else 3):
            jobs.append((what, mods, f, opt, everything, environment(r), "optimised macros"))

    def go(k):
        what, mods, f, crate, order, env, how = jobs[k]
        return getattr(crate, f)(os.path.join(root, "r%d" % k, *(["deeper"] * (k % 3))), mods, order, env)

    with ThreadPoolExecutor(6) as pool:
        results = list(pool.map(go, range(len(jobs))))
        first = {}
        for (what, mods, f, crate, order, env, how), (got, se) in zip(jobs, results):
            if got is None:
                if what not in first:
                    raise d.Inconclusive("the programs do not compile:\n" + se[-3000:])
                res.violation(what + "|not at all", "%s (%s, %r): not this time:\n%s" % (what, how, env, se[-2000:]))
                continue
            if what not in first:
                first[what] = got
                res.distinct += len(got)
                res.count("distinct parts: " + what, len(got))
                if what == "errors":
                    res.count("errors of the macros", sum(len(v.split("\n")) for v in got.values() if v))
                else:
                    res.count("characters of expanded code", sum(len(v) for v in got.values()))
                    for n in sorted(got)[:200:25]:
                        res.sample("%s => %s" % (mods[n][:300], re.sub(r"\s+", " ", got[n])[:400]))
            compare(res, what, mods, first[what], got, how)
            res.count("compilations")

        # the whole way to the metadata that other crates are compiled against
        text = GOOD + "".join("pub mod m%d {\n%s\n}\n" % (n, m) for n, m in enumerate(goods))

        def meta(k):
            base = os.path.join(root, "same")
            os.makedirs(os.path.join(root, "out%d" % k), exist_ok=True)
            o = os.path.join(root, "out%d" % k, "x.rmeta")
            rc, so, se = d.run(["rustc", "+" + d.STABLE, "--edition", "2021", "--crate-name", "observed", "--crate-type", "lib", "lib.rs", "-L", "dependency=" + plain.deps,
                                "--extern", "sscanf=" + plain.lib, "--emit=metadata", "-o", o], base, {}, 300)
            return open(o, "rb").read() if rc == 0 else se

        os.makedirs(os.path.join(root, "same"), exist_ok=True)
        with open(os.path.join(root, "same", "lib.rs"), "w") as f:
            f.write(text)
        metas = list(pool.map(meta, range(20 if thorough else 4)))
    for m in metas:
        if isinstance(m, str):
            if m is metas[0]:
                raise d.Inconclusive("the programs do not compile:\n" + m[-3000:])
            res.violation("metadata|not at all", m[-2000:])
        else:
            res.evaluations += 1
            res.count("metadata of whole crates compared")
            if m != metas[0] and not res.violations:
                res.violation("metadata", "the compiled metadata of the same crate differs from one compilation to the next (%d and %d bytes)" % (len(m), len(metas[0])))
    shutil.rmtree(root, ignore_errors=True)
