"""P19: error messages point at the offending part"""
import re, unicodedata
import ct, formats, p18

# characters on which the tables of display widths agree, nothing that moves the cursor in other ways
TEXTS = [t for t in formats.TEXTS if not any(c in t for c in "\0\r")]


def block(l, ranges_src):
    """the copy of the literal with the part underlined, as it has to appear in the message; ranges in the source text of the literal"""
    src = l.source()
    a, b = ranges_src
    out = []
    pos = 0
    for i, line in enumerate(src.split("\n")):
        head = "At " if i == 0 else ""
        out.append(head + line)
        s, e = max(a, pos), min(b, pos + len(line))
        if s < e:
            pad = "".join(c if c == "\t" else " " * ct.width(c) for c in head + src[pos:s])
            out.append(pad + "^" * ct.width(src[s:e]))
        pos += len(line) + 1
    return "\n".join(out)


def own(diags):
    return [g for g in diags if g.level == "error"]


def line_of(g):
    return g.message.split("\n")[0][:160]


class Case:
    """one program with a faulty literal; `item` holds %s for the literal"""

    def __init__(self, kind, l, marks, item):
        self.kind, self.l, self.marks = kind, l, marks
        self.item = item % l.source()
        self.at = len((item.split("%s")[0]).encode())
        # tokens elsewhere that are at fault as well
        self.also = []
        if "default_and_placeholder" in kind:
            a = len(self.item[:self.item.rindex("[sscanf(default)]")].encode()) + len("[sscanf(")
            self.also.append((a, a + len("default")))


def literal_cases(r, per):
    cases = []
    for kind in formats.KINDS:
        for _ in range(per):
            f, marks = formats.faulty(r, kind, TEXTS)
            types = "".join(", " + t for t in f.types)
            m = r.choice(['sscanf!("x", %%s%s)', 'sscanf!("é", %%s%s)', 'sscanf_unescaped!("x", %%s%s)', "sscanf_get_regex!(%%s%s)"]) % types
            place = r.choice(["fn f() { let _ = sscanf::%s; }", "/* 日 */ fn f() { sscanf::%s; }", "fn f() -> bool { match sscanf::%s { _ => true } }"])
            cases.append(Case(kind, f.l, marks, place % m))
    for kind in formats.DERIVE_KINDS:
        for _ in range(per):
            l, marks, fields = formats.faulty_derive(r, kind, TEXTS)
            a = r.choice(["format = %s", "%s", "format_unescaped = %s"])
            if r.random() < 0.4:
                item = "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(%s)]\nA { %s } }" % (a, fields)
            else:
                item = "#[derive(sscanf::FromScanf)]\n#[sscanf(%s)]\nstruct S { %s }" % (a, fields)
            cases.append(Case("derive " + kind, l, marks, item))
    return cases


def run_literals(d, res, name, cases, toolchain, exact_spans):
    snippets, heads = [], []
    for n, c in enumerate(cases):
        head = "mod m%d { use crate::types; " % n
        heads.append(len(head.encode()))
        snippets.append(head + c.item + "\n}\n")
    out = ct.compile_snippets(d, name, snippets, header=p18.HEADER, toolchain=toolchain)
    for n, (c, diags) in enumerate(zip(cases, out.by)):
        res.evaluations += 1
        res.distinct += 1
        errs = own(diags)
        what = "%s\n%s" % (c.kind, c.item)
        if not errs:
            # P18's business
            res.count("accepted (not judged here)")
            continue
        at = out.starts[n] + heads[n] + c.at
        src = c.l.source()
        off = c.l.offset()
        lit = (at, at + len(src.encode()))
        want = []
        for a, b in c.marks:
            a, b = a + off, b + off
            want.append((a, b))
        res.count("%s: %s" % ("subspan" if exact_spans else "underline", c.kind))
        if exact_spans:
            base = out.starts[n] + heads[n]
            w = sorted([(base + a, base + b) for a, b in c.also] + [(at + len(src[:a].encode()), at + len(src[:b].encode())) for a, b in want])
            got = sorted(set((s, e) for g in errs for f, s, e in g.primary))
            if sorted(set(w)) != got:
                show = lambda v: " and ".join(repr(out.text[s:e].decode("utf-8", "replace")) for s, e in v)
                res.violation("span|" + c.item, "%s\nexpected errors at %s\n         errors at %s\n%s" %
                              (what, show(w), show(got), "\n".join(line_of(g) for g in errs)))
            elif n % 37 == 0:
                res.sample("%s => %s" % (c.item.replace("\n", " ")[:200], [src[a:b] for a, b in want]))
            continue
        blocks = [block(c.l, x) for x in want]
        left = list(errs)
        bad = []
        for b in blocks:
            hit = next((g for g in left if ("\n" + g.message + "\n").find("\n" + b + "\n") >= 0), None)
            if hit is None:
                bad.append("missing:\n" + b)
            else:
                left.remove(hit)
                if [(s, e) for f, s, e in hit.primary] != [lit]:
                    bad.append("the error is not attached to the literal, but to %s" %
                               [out.text[s:e].decode("utf-8", "replace") for f, s, e in hit.primary])
        for a, b in c.also:
            span = (out.starts[n] + heads[n] + a, out.starts[n] + heads[n] + b)
            hit = next((g for g in left if [(s, e) for f, s, e in g.primary] == [span]), None)
            if hit is None:
                bad.append("no error at %r" % out.text[span[0]:span[1]].decode("utf-8", "replace"))
            else:
                left.remove(hit)
        if left:
            bad.append("%d further error(s):\n%s" % (len(left), "\n".join(g.message for g in left)))
        if bad:
            res.violation("underline|" + c.item, "%s\n%s\n\nmessages:\n%s" % (what, "\n".join(bad), "\n---\n".join(g.message for g in errs)))
        elif n % 37 == 0:
            res.sample("%s => %s" % (c.item.replace("\n", " ")[:200], blocks[0]))


# ---------------------------------------------------------------- errors about tokens

def M(n, v=""):
    return "‹%s%s›" % (n, " " + v if v else "")


def marked():
    """programs in which ‹› enclose the tokens that errors of the crate have to point at, exactly"""
    out = []
    P = p18
    turn = dict.fromkeys(P.CONTEXTS, 0)

    def add(p, attr):
        """the mistake on its own and among other things"""
        out.append(P.place(p, attr))
        mine = [c for c in P.CONTEXTS[p] if not (")]" in attr and "cfg_attr" in c)]
        turn[p] += 1
        out.append(P.place(p, attr, mine[turn[p] % len(mine)]))

    for p, names in P.PLACES.items():
        for n in sum(P.PLACES.values(), []):
            if n not in names:
                for v in P.VALUES[n]:
                    add(p, "‹%s› %s" % (n, v))
                    add(p, "%s %s, ‹%s› %s" % (names[0], P.VALUES[names[0]][0], n, v))
        for t in P.TYPOS:
            if t == "r#type":
                continue
            add(p, "‹%s›" % t)
            add(p, "‹%s› = 5" % t)
            add(p, "%s %s, ‹%s›" % (names[0], P.VALUES[names[0]][0], t))
            add(p, "‹%s› = |x| { x }, %s %s" % (t, names[0], P.VALUES[names[0]][0]))
        for n in names:
            for m in names:
                for va in P.VALUES[n]:
                    for vb in P.VALUES[m]:
                        add(p, "%s, %s" % (M(n, va), M(m, vb)))
                        add(p, "%s)] #[sscanf(%s" % (M(n, va), M(m, vb)))
            for sep in [", ", ")]#[sscanf("]:
                if len(names) > 2:
                    add(p, sep.join(M(k, P.VALUES[k][0]) for k in names[:3]))
        need = {"format": "s", "format_unescaped": "s", "map": "c", "filter_map": "c", "from": "t", "try_from": "t"}
        for n in names:
            k = need.get(n)
            if k:
                add(p, "‹%s›" % n)
            if k == "s":
                for v in ["5", "{}", "foo", "'c'", 'b"x"', "true", '["{a}"]']:
                    add(p, "%s = ‹%s›" % (n, v))
            if k == "c":
                for v in ["5", '""', "f", "u8::from", "{|x: u8| x}"]:
                    add(p, "%s = ‹%s›" % (n, v))
                for v in ["‹||› 5", "|‹x›| x", "|x: u8, ‹y: u8›| x", "|‹_›| 5", "|‹(x, y)›| x", "|‹mut x›| x", "|x: u8, ‹y›| x", "|x: u8, ‹y: u8, z: u8›| x"]:
                    add(p, "%s = %s" % (n, v))
            if k == "t":
                for v in ["&'a str", "&u8", "&String", "&mut str"]:
                    add(p, "%s = ‹%s›" % (n, v))
            if n in ("transparent", "skip"):
                for v in ["5", '""', "true", "|x: u8| x"]:
                    add(p, "%s = ‹%s›" % (n, v))
            if n.startswith("autogen"):
                for v in ['"bob"', '"Snake_Case"', '"日本"', '""']:
                    add(p, "%s = ‹%s›" % (n, v))
                for v in ["5", "snake_case", "'c'"]:
                    add(p, "%s = ‹%s›" % (n, v))
    s, e = P.struct, P.enum
    out += [s("").replace("struct S", "struct ‹S›"), s("#[sscanf()]").replace("struct S", "struct ‹S›"), s("", "").replace("struct S", "struct ‹S›"),
            e("", "").replace("enum E", "enum ‹E›"), e("#[sscanf(autogen)]", "").replace("enum E", "enum ‹E›"),
            e("", "A, B(u8)").replace("enum E", "enum ‹E›"), e("", "#[sscanf(skip)] A, #[sscanf(skip)] B").replace("enum E", "enum ‹E›"),
            e("#[sscanf(autogen)]", "#[sscanf(skip)] A").replace("enum E", "enum ‹E›"),
            "#[derive(sscanf::FromScanf)] #[sscanf(\"{a}\")] union ‹Name› { a: u8, b: u8 }",
            e("#[sscanf(autogen)]", "A, B‹(u8)›, C"), e("#[sscanf(autogen)]", "A, B‹{ a: u8 }›"),
            e("#[sscanf(autogen)]", "A, #[sscanf(skip)] S(u8), B‹(#[sscanf(default)] u8)›, C"),
            s("#[sscanf(‹transparent›)]", ""), s("#[sscanf(‹transparent›)]", "(u8, u8)"), s("#[sscanf(‹transparent›)]", "{ a: u8, b: u8 }"),
            e("", "#[sscanf(‹transparent›)] A(u8, u8), #[sscanf(transparent)] B(u8)"), e("", "#[sscanf(transparent)] B(u8), #[sscanf(‹transparent›)] A"),
            e("#[sscanf(‹\"x\"›)]", "A, B"), P.field("‹\"{}\"›"), s("#[sscanf(‹\"{a}\"›, ‹\"{a}\"›)]"), s("#[sscanf(‹\"{a}\"›, ‹r\"{a}\"›)]"),
            s("#[sscanf(‹\"{a}\"›, ‹format = \"{a}\"›)]"), s("#[sscanf(‹\"{a}\"›, ‹transparent›)]"), e("", "A, #[sscanf(‹\"x\"›, ‹skip›)] B"),
            s("#[‹sscanf›]"), s("#[‹sscanf = \"{a}\"›]"), e("#[‹sscanf›]", "A, B"),
            e("", 'A { a: u8 }, #[sscanf(‹bob›)] B, #[sscanf("x")] C'), e("", 'A, #[sscanf("{}", ‹bob = 5›)] B(u8)').replace("‹bob = 5›", "‹bob› = 5"),
            s('#[sscanf("")]', "{ ‹a›: u8 }"), s('#[sscanf("{a}")]', "{ a: u8, ‹b›: std::string::String }"), s('#[sscanf("{c}")]', "{ c: u8, ‹a›: u8, ‹b›: u8 }"),
            s('#[sscanf("{}")]', "{ a: u8, ‹b›: u8 }"), s('#[sscanf("{1}")]', "{ ‹a›: u8, b: u8 }"), s('#[sscanf("x")]', "(‹u8›)"),
            s('#[sscanf("{0}")]', "(u8, ‹std›::string::String)"), s('#[sscanf("{1}")]', "(‹Vec›<u8>, String)"), s('#[sscanf("{1}")]', "(‹u8›, u8, ‹u16›)"),
            e("", '#[sscanf("{}{}")] A(u8, u8), #[sscanf("{a}")] B { a: u8, ‹b›: u8 }'), s('#[sscanf("{r}")]', "{ r: u8, ‹r#type›: u8 }"),
            e("", '#[sscanf("{}")] A(u8, ‹u8›), #[sscanf("{a}")] B { a: u8 }'),
            s('#[sscanf("{a:x}")]', "{ a: ‹f32› }"), s('#[sscanf("{b} {a:x}")]', "{ a: ‹std::string::String›, b: u8 }"), s('#[sscanf("{:b}")]', "(‹Vec<u8>›)"),
            s('#[sscanf("{:#o}{1}")]', "(‹std::num::NonZeroU8›, String)"), s('#[sscanf("{:r7}")]', "(#[sscanf(map = |x: ‹f32›| 5)] u8)"),
            s('#[sscanf("{a:o}")]', "{ #[sscanf(from = ‹char›)] a: u32 }"),
            s('#[sscanf("{a:x}")]', "{ #[sscanf(try_from = ‹std::primitive::u8›)] a: u32 }"), s('#[sscanf("{a:x}")]', "{ #[sscanf(filter_map = |v: ‹&str›| v.parse().ok())] a: u32 }"),
            ]
    for m in ["sscanf", "sscanf_unescaped", "scanf", "scanf_unescaped"]:
        for a in ['"x", ‹5›', "\"x\", ‹'c'›", '"x", ‹b"x"›', '"x", ‹foo›', '‹"x"›', '"x"‹,›', '‹String::new().as_str()›', '"x", "", ‹u8›', '"x", "{}", u8, ‹u8›', '"x", "{}", u8, ‹std::vec::Vec<u8>›', '"x", "{0}", u8, ‹u16›',
                  '"x", "{1}{1}", ‹u8›, u8', '"x", "{0} {2}", u8, ‹u8›, u8', '"x", "{u8}", ‹u8›', '"x", "{} {u8}", u8, ‹Cow<str>›', '"x", "", ‹u8›, ‹u16›, ‹u8›', '"x", "{}", ‹&u8›', '"x", "{}", ‹&mut str›',
                  '"x", "{}", ‹&\'static str›', '"x", "{}", ‹&String›', '"x", "{}", ‹&&str›', '"x", "{}", ‹5›', '"x", "{}", ‹"u8"›', '"x", "{}" ‹u8›', '"x", "{}", u8 ‹u8›', '"x", "{}", u8,‹,›',
                  '"x", "{}", ‹struct›', '"x" ‹"{}"›', '"x"‹;› "{}"', '"x", "{:x}", ‹f32›', '"x", "{:x}", ‹std::string::String›', '"x", "{:x}", ‹&str›', '"x", "{}{1:b}", u8, ‹bool›', '"x", "{:r5}{}", ‹char›, u8',
                  '"x", "{0:#o}", ‹std::primitive::u8›', '"x", "{2:x}{1}{0}", u8, u8, ‹Vec<u8>›', '"x", "{0:x}{0:b}", ‹Vec<u8>›', '"日本", "é{}", u8, ‹u8›', '"x", "{} {}\\n", u8, u8, ‹u8›, ', '‹, ›"{}"'.replace(", ", ","),
                  '"x", "{u8:x}{0}", u8, ‹String›']:
            out.append("fn f() { let _ = sscanf::%s!(%s); }" % (m, a))
    for a in ['‹5›', "‹'c'›", '‹foo›', '"", ‹u8›', '"{}" ‹u8›', '"{}", u8, ‹u8›', '"{:x}", ‹f32›', '"{}", ‹&u8›', '"{0} {2}", u8, ‹u16›, u8', '"{u8}", ‹u16›', '"x", ‹"{}"›']:
        out.append("fn f() { let _ = sscanf::sscanf_get_regex!(%s); }" % a)
    return out


def typed():
    """errors that only the compiler can find have to be reported at the user's tokens"""
    t = []
    for m in ["sscanf", "sscanf_unescaped"]:
        for i in ["5usize", 'b"5"', "'5'", 'Some("5")', "()", "5 + 5", "vec![5u8]", "std::ffi::OsString::new()", "{ 5 }", "[\"a\"]"]:
            t.append('fn f() { let _ = sscanf::%s!(‹%s›, "{}", usize); }' % (m, i))
        for ty in ["types::NoRegex", "types::NoFromStr", "types::Foo", "types::BadErr", "Nowhere", "std::Nowhere", "Vec<u8>", "types::Nowhere"]:
            t.append('fn f() { let _ = sscanf::%s!("x", "{}", ‹%s›); }' % (m, ty))
            t.append('fn f() { let _ = sscanf::%s!("x", "{} {u8}{}", u8, ‹%s›); }' % (m, ty))
    for ty in ["types::NoRegex", "types::NoFromStr", "types::Foo", "types::BadErr", "Nowhere", "Vec<u8>"]:
        t.append('#[derive(sscanf::FromScanf)] #[sscanf("{a} {b}")] struct S { a: u8, b: ‹%s› }' % ty)
        t.append('#[derive(sscanf::FromScanf)] enum S { #[sscanf("{}")] A(u8), #[sscanf("{} {}")] B(u8, ‹%s›) }' % ty)
        t.append('#[derive(sscanf::FromScanf)] #[sscanf(transparent)] struct S(‹%s›);' % ty)
    t += ['#[derive(sscanf::FromScanf)] #[sscanf("")] struct S { #[sscanf(default)] a: ‹types::NoDefault› }',
          '#[derive(sscanf::FromScanf)] #[sscanf("")] struct S { #[sscanf(default = ‹"x"›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("")] struct S { #[sscanf(default = ‹nowhere›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(map = |x: u16| ‹x›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(map = |x: ‹types::NoRegex›| 5)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(filter_map = |x: u8| ‹x›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(from = ‹u16›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(try_from = ‹String›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(from = ‹types::NoRegex›)] a: u8 }',
          '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(from = ‹Nowhere›)] a: u8 }']
    return t


def strip(item):
    """source without marks, and the ranges in bytes"""
    src, ranges, a = b"", [], None
    for part in re.split("([‹›])", item):
        if part == "‹":
            a = len(src)
        elif part == "›":
            ranges.append((a, len(src)))
        else:
            src += part.encode()
    return src.decode(), ranges


def run_marked(d, res, name, items, toolchain, compiler):
    snippets, heads, wants = [], [], []
    for n, item in enumerate(items):
        src, ranges = strip(item)
        head = "mod m%d { use crate::types; " % n
        heads.append(len(head.encode()))
        wants.append(ranges)
        snippets.append(head + src + "\n}\n")
    out = ct.compile_snippets(d, name, snippets, header=p18.HEADER, toolchain=toolchain)
    for n, (item, diags) in enumerate(zip(items, out.by)):
        res.evaluations += 1
        res.distinct += 1
        errs = own(diags)
        if not errs:
            res.count("accepted (not judged here)")
            continue
        base = out.starts[n] + heads[n]
        want = sorted(set((base + a, base + b) for a, b in wants[n]))
        got = sorted(set((s, e) for g in errs for f, s, e in g.primary if f.endswith("lib.rs")))
        if compiler:
            # the compiler may add errors at parts of the tokens
            good = want[0] in got or all(want[0][0] <= s and e <= want[0][1] for s, e in got)
            good = good and all(any(want[0][0] <= s and e <= want[0][1] for f, s, e in g.primary) for g in errs)
        else:
            # for fields without a name it is enough to show where their type begins
            good = want == got or (len(want) == 1 == len(got) and want[0][0] == got[0][0] and "not specified in" in errs[0].message)
        res.count("errors of the compiler" if compiler else "errors about tokens")
        if not good:
            show = lambda v: " and ".join(repr(out.text[s:e].decode("utf-8", "replace")) for s, e in v)
            sig = "span|" + item
            if all(g.message.startswith("invalid value for autogen: ") for g in errs) and show(got) == "'sscanf::FromScanf'":
                sig = "invalid autogen value reported at the derive"
            res.violation(sig, "%s\nexpected errors at %s\n         errors at %s\n%s" % (item, show(want), show(got), "\n".join(line_of(g) for g in errs)))
        elif n % 61 == 0:
            res.sample("%s => %s" % (item.replace("\n", " ")[:200], line_of(errs[0])))


def check(d, res):
    thorough = res.tier == "thorough"
    res.rules.append("Format strings with one known fault at a known place are generated with arbitrary text around it (wide, combining and escaped characters, raw literals, several lines), "
                     "compiled with the real macros, and the diagnostics compared with an independent computation of what has to be underlined: the printed copy and its carets on stable, "
                     "the span of the error on nightly. Programs with marked tokens check the spans of all other errors. A case is one program; all are non-trivial and distinct by source.")
    r = ct.rng(d.SEED, "p19")
    r.bags = {}
    cases = literal_cases(r, 800 if thorough else 150)
    run_literals(d, res, "p19a", cases, None, False)
    run_marked(d, res, "p19b", marked(), None, False)
    run_marked(d, res, "p19c", typed(), None, True)
    run_literals(d, res, "p19n", cases, "nightly", True)
    run_marked(d, res, "p19m", marked(), "nightly", False)
