"""Runs many small programs through the real macros in the real compiler and collects every
diagnostic, attributed to the snippet it points into."""
import bisect, json, os, random, shutil, unicodedata

CARGO = """[package]
name = "%(name)s"
version = "0.1.0"
edition = "%(edition)s"

[%(kind)s]
path = "lib.rs"
%(kindname)s

[dependencies]
sscanf = { path = "/repo" }

[workspace]

[profile.dev]
debug = false
incremental = false
%(extra)s
"""


class Diag:
    """one error or warning"""

    def __init__(self, m, text, lines):
        self.level = m["level"]
        self.code = (m["code"] or {}).get("code")
        self.message = m["message"]
        self.rendered = m["rendered"] or ""
        self.children = [c["message"] for c in m["children"]]
        self.primary = []  # (source text, byte start, byte end)
        spans = m["spans"]
        for s in spans:
            if s["is_primary"]:
                self.primary.append(outer(s))
        self.all = [outer(s) for s in spans]

    def panicked(self):
        return "panicked" in self.message

    def __repr__(self):
        return "%s %s %s" % (self.level, self.code, self.message)


def outer(s):
    """the place in the file itself, for spans inside of macro expansions"""
    while s["expansion"] and not s["file_name"].endswith("lib.rs"):
        s = s["expansion"]["span"]
    return s["file_name"], s["byte_start"], s["byte_end"]


class Out:
    def __init__(self, n):
        self.by = [[] for _ in range(n)]
        self.rest = []
        self.rc = 0
        self.stderr = ""
        self.text = b""


def compile_snippets(d, name, snippets, header="", toolchain=None, edition="2021", env=None, cmd="check", extra="", args=(),
                     timeout=600, footer=None):
    """Each snippet is a sequence of items. With a footer (holding `main`) the result is a program."""
    base = os.path.join(d.BUILD, "ct", name)
    os.makedirs(base, exist_ok=True)
    parts, starts, pos = [], [], 0
    head = (header + "\n").encode()
    parts.append(head)
    pos += len(head)
    for s in snippets:
        b = s.encode() if s.endswith("\n") else (s + "\n").encode()
        starts.append(pos)
        parts.append(b)
        pos += len(b)
    if footer:
        parts.append(footer.encode())
    text = b"".join(parts)
    with open(os.path.join(base, "lib.rs"), "wb") as f:
        f.write(text)
    with open(os.path.join(base, "Cargo.toml"), "w") as f:
        f.write(CARGO % {"name": name, "edition": edition, "extra": extra, "kind": "[bin]" if footer else "lib",
                          "kindname": 'name = "%s"' % name if footer else ""})
    shutil.copyfile(os.path.join(d.HARNESS, "Cargo.lock"), os.path.join(base, "Cargo.lock"))
    tc = toolchain or d.STABLE
    target = os.path.join(d.BUILD, "ct-target-" + tc)
    stamp, now = d.fresh(target)
    e = {"CARGO_INCREMENTAL": "0"}
    e.update(env or {})
    # the time stamp decides whether cargo looks at the file again
    rc, so, se = d.run(["cargo", "+" + tc, cmd, "--offline", "--message-format=json", "--target-dir", target] + list(args),
                       base, e, timeout)
    out = Out(len(snippets))
    out.exe = os.path.join(target, "debug", name)
    out.rc, out.stderr, out.text, out.starts = rc, se, text, starts
    foreign = []
    for line in so.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        if m["target"]["name"] != name.replace("-", "_") and m["target"]["name"] != name:
            if m["message"]["level"] == "error":
                foreign.append(m["message"]["rendered"])
            continue
        m = m["message"]
        if m["level"] not in ("error", "warning", "error: internal compiler error"):
            continue
        if not m["spans"] and (m["message"].startswith("aborting") or "warning" in m["message"] and "emitted" in m["message"]):
            continue
        g = Diag(m, text, None)
        where = None
        for f, a, b in g.primary + g.all:
            if f.endswith("lib.rs") and len(head) <= a < pos:
                where = bisect.bisect_right(starts, a) - 1
                break
        if where is None:
            out.rest.append(g)
        else:
            out.by[where].append(g)
    if foreign:
        raise d.Inconclusive("/repo does not build:\n" + foreign[0])
    if rc != 0 and not any(out.by) and not out.rest:
        if "SIGSEGV" in se or "SIGABRT" in se or "signal" in se or "internal compiler error" in se:
            out.rest.append(Crash(se))
        else:
            raise d.Inconclusive("cargo %s failed without a message: %s" % (cmd, se[-2000:]))
    if rc == 0:
        with open(stamp, "w") as f:
            f.write(now)
    return out


class Crash:
    level = "error"
    code = None
    primary = all = children = []

    def __init__(self, se):
        self.message = "the compiler crashed"
        self.rendered = se[-3000:]

    def panicked(self):
        return True


def bisect_crash(d, name, snippets, **kw):
    """the snippets that make the compiler crash"""
    out = compile_snippets(d, name, snippets, **kw)
    if not any(isinstance(g, Crash) for g in out.rest) or len(snippets) == 1:
        return out, ([0] if any(isinstance(g, Crash) for g in out.rest) else [])
    lo, hi = 0, len(snippets)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        o = compile_snippets(d, name, snippets[lo:mid], **kw)
        if any(isinstance(g, Crash) for g in o.rest):
            hi = mid
        else:
            lo = mid
    return out, [lo]


def rng(seed, what):
    return random.Random("%s-%s" % (seed, what))


# ---------------------------------------------------------------- string literals

def raw_literal(value, extra=0):
    """None if the value has no raw literal"""
    if "\r" in value:
        return None
    n = 0
    i = 0
    while i < len(value):
        if value[i] == '"':
            k = 0
            while i + 1 + k < len(value) and value[i + 1 + k] == "#":
                k += 1
            n = max(n, k + 1)
        i += 1
    n += extra
    return "r" + "#" * n + '"' + value + '"' + "#" * n


def esc_char(c, r, p=0.15):
    """one way to write the character in an ordinary literal"""
    must = c in '"\\' or c == "\r"
    if not must and r.random() > p:
        return c
    simple = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0", "\\": "\\\\", '"': '\\"', "'": "\\'"}
    ways = []
    if c in simple:
        ways += [simple[c]] * 2
    if ord(c) < 128:
        ways.append("\\x%02x" % ord(c))
    ways.append("\\u{%x}" % ord(c))
    h = "%x" % ord(c)
    if len(h) > 1:
        ways.append("\\u{%s_%s}" % (h[:1], h[1:].upper()))
    return r.choice(ways)


def literal(value, r, p=0.1):
    """(source text) of a literal with this value"""
    if r.random() < 0.4:
        t = raw_literal(value, r.choice([0, 0, 0, 1, 2]))
        if t is not None:
            return t
    return '"' + "".join(esc_char(c, r, p) for c in value) + '"'


def width(s):
    """columns of a text (only used for characters on which all tables agree)"""
    w = 0
    for c in s:
        if unicodedata.combining(c) or unicodedata.category(c) in ("Mn", "Me", "Cf"):
            continue
        w += 2 if unicodedata.east_asian_width(c) in ("W", "F") else 1
    return w
