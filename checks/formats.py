"""Format strings with a known fault at a known place, and a reference parser for format strings"""
import re
import ct

TEXTS = ["a", "abc ", "x: ", " - ", "#", "(", ")", "[", "*", ".", "日本", "é", "e\u0301", "\U0001F600", "Ünï", "{{", "}}", "'",
         '"', "\\", "\n", "\t", "\r", "\0", "%", "$", "漢", "/", ":", "ß→", "　", "z\n  y", "1", "|", "?", "~", "'\"'"]


class Lit:
    """a literal under construction that knows where everything is in its source text"""

    def __init__(self, r, raw=None, hashes=None):
        self.r = r
        self.raw = r.random() < 0.4 if raw is None else raw
        self.hashes = r.choice([1, 1, 2, 3]) if hashes is None else hashes
        self.written = ""
        self.value = ""
        self.cont = not self.raw and r.random() < 0.12
        self.p = r.choice([0, 0, 0.2, 0.6])

    def ok(self, value):
        return not (self.raw and ("\r" in value or '"' + "#" * self.hashes in self.value + value))

    def add(self, value):
        """returns the range in the source text of the content"""
        assert self.ok(value), value
        a = len(self.written)
        for c in value:
            self.value += c
            self.written += c if self.raw else ct.esc_char(c, self.r, self.p)
        return a, len(self.written)

    def line_continuation(self):
        if self.cont:
            self.written += "\\\n" + self.r.choice(["", "  ", "\t "])

    def source(self):
        if self.raw:
            return "r" + "#" * self.hashes + '"' + self.written + '"' + "#" * self.hashes

        return '"' + self.written + '"'

    def offset(self):
        """where the content begins in the source text"""
        return 2 + self.hashes if self.raw else 1


def text(l, r, n, texts=TEXTS):
    for _ in range(n):
        t = r.choice(texts)
        if l.ok(t):
            l.add(t)


GOOD = ["u8", "i32", "f64", "str", "String", "&str", "char", "bool", "usize", "std::string::String", "std::primitive::u8"]
GOOD_OPT = [("u8", "x"), ("i64", "#b"), ("u16", "r7"), ("i128", "o#"), ("str", "/a|b/"), ("String", r"/[a-z]{3}\/x/"),
            ("u8", r"/\d+/"), ("usize", "r36")]


class Format:
    """a format for sscanf with its types"""

    def __init__(self, r, texts=None, **kw):
        self.r = r
        self.texts = texts or TEXTS
        self.l = Lit(r, **kw)
        self.types = []
        self.autos = 0

    def good(self):
        r = self.r
        ty, opt = (r.choice(GOOD), None) if r.random() < 0.5 else r.choice(GOOD_OPT)
        name = ty
        if r.random() < 0.5:
            name = ""
            self.types.append(ty)
        o = "" if opt is None else ":" + opt
        if self.l.ok("{" + name + o + "}"):
            self.l.add("{" + name + o + "}")
        elif name == "":
            self.types.pop()

    def front(self):
        r = self.r
        text(self.l, r, r.choice([0, 1, 1, 2, 3, 5]), self.texts)
        self.l.line_continuation()
        for _ in range(r.choice([0, 0, 1, 2])):
            self.good()
            text(self.l, r, r.choice([0, 1, 2]), self.texts)

    def back(self):
        r = self.r
        # a literal `{` or `}` must not be next to the fault
        self.l.add(r.choice([" ", "a", ".", "日"]))
        text(self.l, r, r.choice([0, 1, 3]), self.texts)
        if r.random() < 0.3:
            self.good()


BAD_OPTIONS = ["q", "X", "O", "B", "xx", "?", "#?", "08", "5", ".3", ">5", "x:", "a/b/", "日", "#xo", "r 16", "r-2", "r3.5",
               "r", "rx", "r0", "r1", "r37", "r99", "r256", "r99999999999999999999", "##", "#r16", "r16#", "#q", "x##", "##x", "#x#",
               "r#", "é", "e", "X#", " x", "x ", "r16 ", "R16"]
BAD_REGEX = ["(", ")", "ab(ab", "[a", "a)", "*", "+a", "a{2,1}", "(?z:a)", r"\q", "(?i", "[b-a]", r"\p{Nope}", "(?P<a", "a**b(", "?",
             r"\8", "(?:", "|(", "(?x)a # b", r"\x{110000}", "x{5", r"(?=a)", r"(?<!b)", r"\1"]
BAD_REGEX = [b for b in BAD_REGEX if b not in ("x{5",)]
CAPTURES = ["()", "(a)", "ab()ab", "(a|b)", "a(b)c", "(a)+", "(a)?", "(a){2}", "(?:(a))", "(?:a|(b))", "a|(b)", "(?:x(?:y(z)))", "(?i:(a))",
            "(?P<n>a)", "(?:(?P<n>a))*", "[a](b)", r"\((a)\)", "(?i)(a)", "(?:a(b)c){2}", "((?:a))", "(?:)()", "(a)|(b)", "x(?:(y)|z)?w",
            "(?:(?:(?:(a)?)+)*)", "^(a)$", "a*(b*)"]
CAPTURES += [c.replace("@", g) for g in ["(a)", "()", "(?P<n>a)", "(?<n>a)", "(a|b)", "(.*?)", "((?i)a)"] for c in [
    "a@b", "(?:@)", "@*", "@+?", "@*?", "@??", "@{2,3}", "@{2}?", "@{1,}?", "x|@", "a|b|c|d|e|f|g|h|i|j|k|@", "[a-c]de?f*g+h{2}i.j\\bk@", "(?i:@)", "(?s)(?:@)x",
    "(?:(?:(?:(?:(?:(?:@))))))", "\\b@", "^@$", "(?:x@)*?", "(?x: a @ )", "(?:a|(?:b|@c?)+)?", "[(]@[)]"]]
BAD_NAMES = [".", "9a", "u8 u8", "u8,", "#", "[u8]", "(u8)", "-1", "u8;", "'a", "?", "1.5", "*", "&mut str", "&'static str", "&u8",
             "&String", "fn()", "u8 +", "!", "->", "|", "=", "@", "dyn", "struct", "Vec<", "<u8", "u8>", "a-b", "日 本", "0x", "u8 as",
             "99999999999999999999999", "\"", "'", "\\", "_", "$a", "u8()()", "(", ")", "[", "1_", "..", "~", "a b", "()", "*const u8"]
BAD_NAMES = [b for b in BAD_NAMES if b not in ("dyn",)]


def pick(r, options):
    """every option comes up before one does for the second time, when the generator has bags"""
    bags = getattr(r, "bags", None)
    if bags is None:
        return r.choice(options)
    bag = bags.setdefault(tuple(options), [])
    if not bag:
        bag += options
        r.shuffle(bag)
    return bag.pop()


def faulty(r, kind, texts=None):
    """(Format, [(fault range in the content)], kind)"""
    f = Format(r, texts)
    texts = f.texts
    l = f.l
    f.front()
    if kind == "lone_close":
        m = [l.add("}")]
        f.back()
    elif kind == "unclosed":
        tail = pick(r, ["{", "{u8", "{:", "{:b", "{://", "{:/a/", "{u8:x", "{0", "{ ", "{std::string::String", "{u8:/a|b/", "{日"])
        m = [l.add(tail)]
    elif kind == "empty_option":
        l.add(pick(r, ["{:", "{u8:", "{str:"]))
        m = [l.add("}")]
        f.back()
    elif kind == "bad_option":
        o = pick(r, BAD_OPTIONS)
        l.add(pick(r, ["{:", "{u8:", "{str:"]))
        m = [l.add(o)]
        l.add("}")
        f.back()
    elif kind == "hashtag":
        l.add("{u8:")
        m = [l.add("#")]
        l.add("}")
        f.back()
    elif kind == "regex_end":
        l.add(pick(r, ["{:", "{str:"]))
        rest = pick(r, ["/", "/}", "/a", "/a}", r"/a\/}", "/日}b", r"/\/", "/x}}"])
        m = [l.add(rest)]
    elif kind == "regex_escape":
        l.add(pick(r, ["{:/", "{str:/a", "{u8:/日"]))
        m = [l.add("\\")]
    elif kind == "after_regex":
        l.add(pick(r, ["{:/a/", "{str://", "{u8:/[a-z]/"]))
        m = [l.add(pick(r, ["g", " ", "日", "/", ":", "{", "\u00e9"]))]
        l.add("}")
        f.back()
    elif kind == "bad_regex":
        l.add(pick(r, ["{:", "{str:", "{u8:"]))
        b = pick(r, BAD_REGEX)
        m = [l.add("/" + b + "/")]
        l.add("}")
        f.back()
    elif kind == "capture":
        l.add(pick(r, ["{:", "{str:", "{u8:"]))
        m = [l.add("/" + pick(r, CAPTURES) + "/")]
        l.add("}")
        f.back()
    elif kind == "index":
        l.add("{")
        m = [l.add(str(len(f.types) + pick(r, [1, 2, 7, 100])))]
        l.add(pick(r, ["}", ":x}", ":/a/}"]))
        # (the types are added below, at most as many as the index)
        f.l.add(" ")
        text(l, r, 2, texts)
    elif kind == "bad_name":
        l.add("{")
        names = [n for n in BAD_NAMES if l.ok(n)]
        m = [l.add(pick(r, names))]
        l.add(pick(r, ["}", "}", ":/a/}"]))
        f.back()
    elif kind == "no_colon":
        l.add("{")
        m = [l.add(pick(r, ["/a/", "/.*?/", "/日/", "/[a-z]+/"]))]
        l.add("}")
        f.back()
    elif kind == "too_few":
        m = [l.add(pick(r, ["{}", "{:x}", "{:/a/}", "{:#b}", "{:r7}"]))]
        l.add(" ")
        text(l, r, 2, texts)
    elif kind == "two_of_types":
        m = []
        n = len(f.types)
        for _ in range(pick(r, [2, 3])):
            k = pick(r, ["index", "bad_name"])
            l.add("{")
            m.append(l.add(str(n + 50 + r.randrange(50)) if k == "index" else pick(r, [".", "&u8", "u8 u8", "-1"])))
            l.add("}")
            text(l, r, 1, texts)
        m.append(l.add("{}"))
        l.add(" ")
    elif kind == "radix_type":
        l.add("{")
        m = [l.add(pick(r, ["str", "String", "char", "bool", "f32", "f64", "&str", "std::primitive::u8", "std::num::NonZeroU8", "Foo",
                             "core::primitive::i32", "Cow<str>", "Vec<u8>", "u9", "U8"]))]
        l.add(":" + pick(r, ["x", "#x", "b", "r16", "o#", "r36"]) + "}")
        f.back()
    else:
        raise ValueError(kind)
    return f, m


KINDS = ["lone_close", "unclosed", "empty_option", "bad_option", "hashtag", "regex_end", "regex_escape", "after_regex", "bad_regex", "capture",
         "index", "bad_name", "no_colon", "too_few", "two_of_types", "radix_type"]


# ------------------------------------------------------------------ faults in derived types

def faulty_derive(r, kind, texts=TEXTS):
    """fields a: u8, b: String; returns (Lit, faults, fields source)"""
    l = Lit(r)
    text(l, r, pick(r, [0, 1, 2, 4]), texts)
    l.line_continuation()
    fields = ["a: u8", "b: String"]
    good = pick(r, ["{a} {b}", "{b}|{a:x}", "{} {}", "{1}-{0}", "{:r9}{}", "{b}-{}", "{0:/./} {1:/[a-z]+/}"])
    if kind == "index":
        l.add(good + "日")
        l.add("{")
        m = [l.add(str(pick(r, [2, 3, 10, 77])))]
        l.add(pick(r, ["}", ":x}"]))
    elif kind == "name":
        l.add("{")
        m = [l.add(pick(r, ["x", "A", "ab", "u8", "aa", "日", "String", "&str", "a b", " a", "a ", "-1", "*", "u8::x"]))]
        l.add("}é" + good)
    elif kind == "twice":
        fields = ["a: u8", "b: String"]
        l.add("{b}日")
        first = l.add("{a}")
        l.add(" ")
        m = [first, l.add(pick(r, ["{a}", "{a:x}", "{0}", "{0:/x/}"]))]
    elif kind == "default_and_placeholder":
        fields = ["a: u8", "#[sscanf(default)] b: String"]
        l.add("{a}日")
        m = [l.add(pick(r, ["{b}", "{1}"]))]
    elif kind == "too_many":
        l.add(good + " 日")
        m = [l.add(pick(r, ["{}", "{:x}", "{:/z/}"]))]
    elif kind == "radix":
        # the type of the field is at fault
        l.add("{a} {b:x}")
        m = None
    else:
        raise ValueError(kind)
    l.add(pick(r, ["", " ", ".", "日"]))
    return l, m, ", ".join(fields)


DERIVE_KINDS = ["index", "name", "twice", "default_and_placeholder", "too_many"]
