"""P18: misuse is a compile error with a message, never accepted and never a macro panic"""
import re
import ct, formats

HEADER = """#![allow(warnings)]
extern crate self as me;
pub mod types {
    pub struct Foo;
    pub struct NoRegex;
    impl std::str::FromStr for NoRegex { type Err = std::fmt::Error; fn from_str(_: &str) -> Result<Self, std::fmt::Error> { Ok(NoRegex) } }
    pub struct NoFromStr;
    impl sscanf::RegexRepresentation for NoFromStr { const REGEX: &'static str = "x"; }
    #[derive(Debug)] pub struct NotAnError;
    pub struct BadErr;
    impl std::str::FromStr for BadErr { type Err = NotAnError; fn from_str(_: &str) -> Result<Self, NotAnError> { Ok(BadErr) } }
    impl sscanf::RegexRepresentation for BadErr { const REGEX: &'static str = "x"; }
    pub struct NoDefault(pub u8);
    impl std::str::FromStr for NoDefault { type Err = std::fmt::Error; fn from_str(_: &str) -> Result<Self, std::fmt::Error> { Ok(NoDefault(0)) } }
    impl sscanf::RegexRepresentation for NoDefault { const REGEX: &'static str = "x"; }
}
"""

# (item with {} for the number, group): all of them have to be rejected by the macros
FIELD_FORMAT = '#[derive(sscanf::FromScanf)] #[sscanf(format = "%s")] struct S%%d { %s a: u8%s }'


def field(attr, fmt="{a}"):
    return '#[derive(sscanf::FromScanf)]\n#[sscanf(format = "%s")]\nstruct S { #[sscanf(%s)]\na: u8 }' % (fmt, attr)


def struct(attr, body="{ a: u8 }"):
    return "#[derive(sscanf::FromScanf)]\n%s\nstruct S%s%s" % (attr, body, "" if body.startswith("{") else ";")


def enum(attr, body):
    return "#[derive(sscanf::FromScanf)]\n%s\nenum E { %s }" % (attr, body)


# attribute names of each place
PLACES = {
    "struct": ["format", "format_unescaped", "transparent"],
    "variant": ["format", "format_unescaped", "transparent", "skip"],
    "enum": ["autogen", "autogenerate"],
    "field": ["default", "map", "filter_map", "from", "try_from"],
}
VALUES = {
    "format": ['= "{a}"'], "format_unescaped": ['= r"{a}"'], "transparent": [""], "skip": [""],
    "autogen": ["", '= "snake_case"'], "autogenerate": ["", '= "UPPERCASE"'],
    "default": ["", "= 5"], "map": ["= |x: u8| x"], "filter_map": ["= |x: u8| Some(x)"], "from": ["= u8"], "try_from": ["= u8"],
}
TYPOS = ["formt", "Format", "FORMAT", "format_unescape", "formatunescaped", "transparant", "skipp", "autgen", "auto_gen", "AutoGen", "defaul",
         "Default", "mapp", "filtermap", "filter", "form", "tryfrom", "bob", "x", "default_", "rename", "with", "r#type", "a", "regex"]
# values that are wrong for an attribute
WRONG = {
    "format": ["", "= 5", "= {}", "= foo", "= 'c'", '= b"x"', '= c"x"', '= "a" "b"', '= concat!("a")', "= |x| x", "= \"{a}\" + \"\"", "(\"{a}\")",
               "= true", "= &\"{a}\"", "=", "[]", "= [\"{a}\"]", "= (\"{a}\",)"],
    "transparent": ["= 5", '= ""', "= true", "(5)", "=", "= |x: u8| x"],
    "skip": ["= 5", '= ""', "= true", "(5)", "=", "= |x: u8| x", "= false"],
    "autogen": ["= 5", '= ""', '= "bob"', '= "casesensitive"', '= "Snake_Case"', '= "snakecase"', '= "kebab_case"', '= "Title Case"', "= {}",
                "= snake_case", '= "CASESENSITIVE"', "=", '("snake_case")', "= 'c'", '= " snake_case"', '= "camelcase"', '= "lower"', '= "UPPER"',
                '= "lowerCase"', '= "Upper Case"', '= "SCREAMING"', '= "日本"', '= b"lowercase"', '= "train-case"', '= "Train-Case"'],
    "default": ["=", "5", "(5)", "= ;"],
    "map": ["", "=", "= 5", '= ""', "= f", "= || 5", "= |x| x", "= |x: u8, y: u8| x", "= |_| 5", "= |(x, y)| x", "= |&x| x", "(|x: u8| x)",
            "= u8::from", "= {|x: u8| x}", "= |mut x| x", "= |x: u8, y| x", "= |x, y: u8| x"],
    "from": ["", "=", "= 5", '= ""', "= |x: u8| x", "= &'a str", "= &u8", "(u8)", "= u8 + u8", "= [u8; 5]", "= (u8, u8)", "= *const u8", "= fn()", "= !",
             "= u8, u16"],
}
WRONG["format_unescaped"] = WRONG["format"]
WRONG["autogenerate"] = WRONG["autogen"]
WRONG["filter_map"] = WRONG["map"]
WRONG["try_from"] = WRONG["from"]


# the same mistakes among other things: {} stands for the attribute list
CONTEXTS = {
    "struct": [
        "/// docs\n#[derive(Debug, sscanf::FromScanf)]\n#[allow(dead_code)]\n#[sscanf({})]\n#[doc(hidden)]\nstruct S<T: Default> where T: Copy { #[sscanf(default)] t: Vec<T>, #[sscanf(map = |x: u8| x)] a: u8 }",
        "#[derive(Clone)]\n#[derive(sscanf::FromScanf)]\n#[sscanf({})]\npub(crate) struct S<'x, const N: usize> { a: &'x str, #[sscanf(default = [0; N])] b: [u8; N] }",
        "#[cfg_attr(all(), derive(sscanf::FromScanf), sscanf({}))]\nstruct S { a: u8 }",
    ],
    "variant": [
        "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(\"x\")] B, #[sscanf(skip)] C(u8), /** docs */ #[sscanf({})] #[doc(hidden)] A { a: u8 }, #[sscanf(\"{0}\")] D(u8) }",
        "#[derive(sscanf::FromScanf)]\n#[sscanf(autogen)]\nenum E { B, #[sscanf({})] A { a: u8 } }",
        "#[derive(sscanf::FromScanf)]\nenum E<'x, T: Default> { #[sscanf(\"{}\")] B(&'x str), #[sscanf({})] A { a: u8, #[sscanf(default)] t: T } }",
    ],
    "enum": [
        "/// docs\n#[derive(Debug, sscanf::FromScanf)]\n#[allow(dead_code)]\n#[sscanf({})]\nenum E { A, #[sscanf(\"b\")] B, #[sscanf(skip)] C(u8), #[sscanf(\"{}\")] D(u8) }",
    ],
    "field": [
        "#[derive(sscanf::FromScanf)]\n#[sscanf(\"@a {b}\")]\nstruct S { #[sscanf(default)] z: u8, /** docs */ #[allow(unused)] #[sscanf({})] #[doc(hidden)] a: u8, #[sscanf(from = u8)] b: u8 }",
        "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(\"x\")] B, #[sscanf(\"@a\")] A { #[sscanf(default)] z: u8, #[sscanf({})] a: u8 } }",
        "#[derive(sscanf::FromScanf)]\n#[sscanf(\"{0} @1\")]\nstruct S(#[sscanf(map = |x: u8| x)] u8, #[sscanf({})] u8);",
        "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(\"@0 {1}\")] A(#[sscanf({})] u8, #[sscanf(try_from = u8)] u16), #[sscanf(skip)] B }",
    ],
}


def place(p, attr, context=None):
    """one attribute list at a place; everything else is correct"""
    if context is not None:
        context = context.replace("sscanf({}", "sscanf(%s" % attr, 1)
        # a field with a default has no placeholder
        return re.sub("@(.)", "" if "default" in attr.lower() else r"{\1}", context)
    if p == "struct":
        return struct("#[sscanf(%s)]" % attr)
    if p == "variant":
        return enum("", "#[sscanf(%s)] A { a: u8 }, #[sscanf(\"x\")] B" % attr)
    if p == "enum":
        return enum("#[sscanf(%s)]" % attr, "A, B")
    return field(attr)


def attributes(contexts):
    """(name of the misuse, item); each misuse is tried on its own and in some of the contexts"""
    out = []
    turn = dict.fromkeys(CONTEXTS, 0)

    def add(what, p, attr):
        out.append((what, place(p, attr)))
        mine = [c for c in CONTEXTS[p] if not (")]" in attr and "cfg_attr" in c)]
        for _ in range(min(contexts, len(mine))):
            turn[p] += 1
            out.append((what + " among others", place(p, attr, mine[turn[p] % len(mine)])))

    for p, names in PLACES.items():
        for n in sum(PLACES.values(), []):
            if n not in names:
                for v in VALUES[n]:
                    add("%s on %s" % (n, p), p, "%s %s" % (n, v))
        for t in TYPOS:
            add("unknown %s on %s" % (t, p), p, t)
            add("unknown %s = 5 on %s" % (t, p), p, t + " = 5")
            add("unknown %s next to a good one on %s" % (t, p), p, "%s %s, %s" % (names[0], VALUES[names[0]][0], t))
        for n in names:
            for w in WRONG[n]:
                add("%s %s on %s" % (n, w, p), p, "%s %s" % (n, w))
            for m in names:
                for va in VALUES[n]:
                    for vb in VALUES[m]:
                        kind = "repeated" if m == n else "conflicting"
                        add("%s %s and %s on %s" % (kind, n, m, p), p, "%s %s, %s %s" % (n, va, m, vb))
                        add("%s %s and %s on %s in two attributes" % (kind, n, m, p), p, "%s %s)] #[sscanf(%s %s" % (n, va, m, vb))
        if len(names) > 2:
            add("three on " + p, p, ", ".join("%s %s" % (n, VALUES[n][0]) for n in names[:3]))
            add("all on " + p, p, ", ".join("%s %s" % (n, VALUES[n][0]) for n in names))
        for t in ["= 5", "5", "format.x", "::format", "'a'", "#", "|x| x", "format: 5", "format => 5", ", ,", ",", "format = \"a\" bob = 5", "crate", "-", "format!()", "_",
                  "fn", "\"{a}\" = 5", "5 = 5"]:
            add("tokens %s on %s" % (t, p), p, t)
        for whole in ["#[sscanf]", '#[sscanf = "{a}"]', "#[sscanf = 5]"]:
            item = {"struct": struct(whole), "variant": enum("", whole + " A { a: u8 }, #[sscanf(\"x\")] B"), "enum": enum(whole, "A, B"),
                    "field": '#[derive(sscanf::FromScanf)]\n#[sscanf("{a}")]\nstruct S { %s\na: u8 }' % whole}[p]
            out.append(("%s on %s" % (whole, p), item))
    # bare literals
    out += [("literal on enum", enum('#[sscanf("x")]', "A, B")), ("literal on field", field('"{}"')), ("raw literal on field", field('r"{}"')),
            ("raw literal on enum", enum('#[sscanf(r"x")]', "A, B")),
            ("two literals", struct('#[sscanf("{a}", "{a}")]')), ("literal and raw literal", struct('#[sscanf("{a}", r"{a}")]')),
            ("literal and format", struct('#[sscanf("{a}", format = "{a}")]')), ("raw literal and format", struct('#[sscanf(r"{a}", format = "{a}")]')),
            ("byte literal", struct('#[sscanf(b"{a}")]')), ("two literals without comma", struct('#[sscanf("{a}" "{a}")]')),
            ("literal and transparent", struct('#[sscanf("{a}", transparent)]')), ("concat", struct('#[sscanf(concat!("{a}"))]')),
            ("literal and skip", enum("", 'A, #[sscanf("x", skip)] B')), ("literal twice on variant", enum("", 'A, #[sscanf("x", "y")] B'))]
    # shapes
    out += [("no format", struct("")), ("no format on unit", struct("", "")), ("no format on tuple", struct("", "(u8)")),
            ("empty attribute", struct("#[sscanf()]")),
            ("union", '#[derive(sscanf::FromScanf)] #[sscanf("{a}")] union U { a: u8, b: i8 }'), ("plain union", "#[derive(sscanf::FromScanf)] union U { a: u8 }"),
            ("empty enum", enum("", "")), ("empty autogen enum", enum("#[sscanf(autogen)]", "")),
            ("no usable variant", enum("", "A, B(u8)")), ("all skipped", enum("", "#[sscanf(skip)] A, #[sscanf(skip)] B")),
            ("all skipped autogen", enum("#[sscanf(autogen)]", "#[sscanf(skip)] A, #[sscanf(skip)] B(u8)")),
            ("autogen with tuple fields", enum("#[sscanf(autogen)]", "A, B(u8)")), ("autogen with named fields", enum("#[sscanf(autogen)]", "A, B { a: u8 }")),
            ("autogen with fields and default", enum("#[sscanf(autogen)]", "A, B(#[sscanf(default)] u8)")),
            ("transparent unit", struct("#[sscanf(transparent)]", "")), ("transparent two", struct("#[sscanf(transparent)]", "(u8, u8)")),
            ("transparent named two", struct("#[sscanf(transparent)]", "{ a: u8, b: u8 }")), ("transparent none", struct("#[sscanf(transparent)]", "()")),
            ("transparent empty", struct("#[sscanf(transparent)]", "{}")), ("transparent default", struct("#[sscanf(transparent)]", "(#[sscanf(default)] u8)")),
            ("transparent one and default", struct("#[sscanf(transparent)]", "(u8, #[sscanf(default)] u8)")),
            ("transparent variant two", enum("", "#[sscanf(transparent)] A(u8, u8)")), ("transparent variant unit", enum("", "#[sscanf(transparent)] A")),
            ("transparent variant default", enum("", "#[sscanf(transparent)] A(#[sscanf(default)] u8)"))]
    # fields and placeholders
    two = "{ a: u8, b: u8 }"
    for fmt, body in [("", "{ a: u8 }"), ("{a}", two), ("{b}", two), ("{}", two), ("{0}", two), ("{1}", two), ("{a}", "{ a: u8, b: u8, c: u8 }"),
                      ("{a} {a}", two), ("{a} {0} {b}", two), ("{} {} {}", two), ("{a} {} {}", two), ("{c}", two), ("{a} {b} {c}", two), ("{a} {b} {2}", two),
                      ("{} {a} {b}", two), ("{a} {b} {}", two), ("{a} {b} {b}", two), ("{1} {1}", two), ("{0} {1} {0}", two), ("x", "(u8)"), ("{a}", "(u8)"),
                      ("{0} {0}", "(u8)"), ("{1}", "(u8)"), ("{}", ""), ("{0}", "()"), ("{a}", "{}"), ("{} {}", "(u8)"), ("{u8}", "(u8)"), ("{A}", "{ a: u8 }"),
                      ("{}", "(#[sscanf(default)] u8)"), ("{0}", "(#[sscanf(default)] u8)"), ("{a}", "{ #[sscanf(default = 5)] a: u8 }"),
                      ("{}", "(#[sscanf(default)] u8, u8, u8)"), ("{1}", "(u8, #[sscanf(default)] u8)"), ("{} {}", "(u8, #[sscanf(default = 3)] u8)"),
                      ("", "(#[sscanf(map = |x: u8| x)] u8)"), ("", "(#[sscanf(from = u8)] u8)"), ("", "(u8, #[sscanf(default)] u8)"),
                      ("{r#a}", "{ a: u8 }"), ("{type}", "{ a: u8 }"), ("{a:x}", "{ a: f32 }"), ("{a:x}", "{ a: String }"), ("{a:b}", "{ a: bool }"),
                      ("{a:r7}", "{ #[sscanf(map = |x: f32| 5)] a: u8 }"), ("{a:o}", "{ #[sscanf(from = char)] a: u32 }"), ("{a:#x}", "{ a: std::primitive::u8 }"),
                      ("{:x}", "(std::num::NonZeroU8)"), ("{:#}", "(u8)"), ("{", "{ a: u8 }"), ("}", "{ a: u8 }"), ("{a", "{ a: u8 }"), ("{a:", "{ a: u8 }"),
                      ("{a:}", "{ a: u8 }"), ("{a:/(x)/}", "{ a: u8 }"), ("{a:/[/}", "{ a: u8 }"), ("{a:q}", "{ a: u8 }"), ("{a}}", "{ a: u8 }"),
                      ("{{a}", "{ a: u8 }"), ("{-1}", "(u8)"), ("{0.0}", "((u8,))"), ("{a.b}", "{ a: u8 }"), ("{self}", "{ a: u8 }"), ("{a }", "{ a: u8 }")]:
        for style in ['#[sscanf(format = "%s")]', '#[sscanf("%s")]', '#[sscanf(format_unescaped = "%s")]', '#[sscanf(r"%s")]']:
            a = style % fmt
            out.append(("fields %s %s" % (a, body), struct(a, body)))
            b = body or ""
            out.append(("variant fields %s %s" % (a, body), enum("", "%s A%s" % (a, b))))
    return out


INPUTS = ['"x"', "&String::new()", "i"]


def macro_calls():
    """misuse of the arguments of the macros"""
    out = []
    for m in ["sscanf", "sscanf_unescaped"]:
        for args in ["", '"x"', '"x",', ', "{}"', '"x" "{}"', '"x", 5', "\"x\", 'c'", '"x", b"x"', '"x", c"x"', '"x", foo', '"x", concat!("{}")', '"x", &"{u8}"', '"x", ("{u8}")',
                     '"x", "{}"', '"x", "{}", ', '"x", "{}", 5', '"x", "{}", "u8"', '"x", "", u8', '"x", "{}", u8, u8', '"x", "{}" u8', '"x", "{}", u8 u8', '"x", "{}", u8,,',
                     '"x", "{}", ,', '"x", "{} {}", u8', '"x", "{1}", u8', '"x", "{0}", u8, u16', '"x", "{1} {2}", u8, u8', '"x", "{0} {2}", u8, u8, u8', '"x", "{u8}", u8',
                     '"x", "{} {u8}", u8, u16', '"x", "{0} {}", u8, u16', '"x", "{}", &u8', '"x", "{}", &mut str', '"x", "{}", &\'static str', '"x", "{}", &\'a str', '"x", "{}", &&str',
                     '"x", "{}", &String', '"x", "{}", [u8]', '"x", "{}", [u8; 4]', '"x", "{}", (u8)', '"x", "{}", (u8, u8)', '"x", "{}", ()', '"x", "{}", fn()', '"x", "{}", *const u8', '"x", "{}", !',
                     '"x", "{}", _', '"x", "{}", dyn Foo', '"x", "{}", impl Foo', '"x", "{}", u8 = 5', '"x", "{}", x: u8', '"x", "{}", struct', '"x"; "{}"; u8', '"x", "{:x}", f32', '"x", "{:x}", String',
                     '"x", "{:x}", &str', '"x", "{:x}", str', '"x", "{:b}", bool', '"x", "{:r5}", char', '"x", "{:#o}", std::primitive::u8', '"x", "{0:x}", Vec<u8>', '"x", "{:#}", u8', '"x", "{}", u8,, u8',
                     '"x", "{0}", u8 "a"', 'x y, "{}", u8', ', , ,', '"x", "{}", &', '"x", "{}", <u8', '"x", "{}", Vec<u8', '"x", "{99999999999999999999}", u8', '"x", "{usize:r16}{isize:r1}"',
                     '"x" => "{}", u8', 'let x = 5, "{}"', '"x", r', '"x", "{}"; u8', '"x", "{}"u8', '"x", "a", ""']:
            if m == "sscanf_unescaped" and args in ():
                continue
            out.append(("%s!(%s)" % (m, args), "fn f() { let _ = sscanf::%s!(%s); }" % (m, args)))
    for args in ["", ",", "5", "'c'", 'b"x"', '"{}"', '"{}", ', '"", u8', '"{}" u8', '"{}", u8, u8', '"{1}", u8', '"{u8}", u8', '"x", "{}", u8', '"{:x}", f32', '"{:/(/}", str', '"{:/()/}", str', '"{"', '"}"',
                 'foo, u8', '"{}", &u8', '"{0} {2}", u8, u8, u8']:
        out.append(("sscanf_get_regex!(%s)" % args, "fn f() { let _ = sscanf::sscanf_get_regex!(%s); }" % args))
    return out


# these are rejected by the type checker, because macros know nothing about types
TYPED = [
    ("type without regex", 'fn f() { let _ = sscanf::sscanf!("x", "{}", types::NoRegex); }'),
    ("inline type without regex", 'fn f() { let _ = sscanf::sscanf!("x", "{types::NoRegex}"); }'),
    ("type without regex in get_regex", 'fn f() { let _ = sscanf::sscanf_get_regex!("{}", types::NoRegex); }'),
    ("type without regex in unescaped", 'fn f() { let _ = sscanf::sscanf_unescaped!("x", "{}", types::NoRegex); }'),
    ("type without FromStr", 'fn f() { let _ = sscanf::sscanf!("x", "{}", types::NoFromStr); }'),
    ("inline type without FromStr", 'fn f() { let _ = sscanf::sscanf!("x", "{types::NoFromStr}"); }'),
    ("type without FromStr with regex", 'fn f() { let _ = sscanf::sscanf!("x", "{types::NoFromStr:/x/}"); }'),
    ("type with nothing", 'fn f() { let _ = sscanf::sscanf!("x", "{types::Foo}"); }'),
    ("type with nothing and a regex", 'fn f() { let _ = sscanf::sscanf!("x", "{types::Foo:/x/}"); }'),
    ("error type is no error", 'fn f() { let _ = sscanf::sscanf!("x", "{types::BadErr}"); }'),
    ("field without regex", '#[derive(sscanf::FromScanf)] #[sscanf("{a}")] struct S { a: types::NoRegex }'),
    ("field without FromStr", '#[derive(sscanf::FromScanf)] #[sscanf("{a}")] struct S { a: types::NoFromStr }'),
    ("variant field without regex", '#[derive(sscanf::FromScanf)] enum S { #[sscanf("{a}")] A { a: types::NoRegex } }'),
    ("transparent without regex", '#[derive(sscanf::FromScanf)] #[sscanf(transparent)] struct S(types::NoRegex);'),
    ("default without Default", '#[derive(sscanf::FromScanf)] #[sscanf("")] struct S { #[sscanf(default)] a: types::NoDefault }'),
    ("default of another type", '#[derive(sscanf::FromScanf)] #[sscanf("")] struct S { #[sscanf(default = "x")] a: u8 }'),
    ("default out of scope", '#[derive(sscanf::FromScanf)] #[sscanf("")] struct S { #[sscanf(default = nowhere)] a: u8 }'),
    ("map to another type", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(map = |x: u16| x)] a: u8 }'),
    ("map that captures", 'fn f() { let y = 5u8; #[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(map = |x: u8| x + y)] a: u8 } }'),
    ("map from a type without regex", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(map = |x: types::NoRegex| 5)] a: u8 }'),
    ("filter_map without option", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(filter_map = |x: u8| x)] a: u8 }'),
    ("filter_map of another type", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(filter_map = |x: u16| Some(x))] a: u8 }'),
    ("filter_map with result", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(filter_map = |x: u8| Ok::<u8, ()>(x))] a: u8 }'),
    ("from without From", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(from = u16)] a: u8 }'),
    ("from in the wrong direction", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(from = u32)] a: u16 }'),
    ("try_from without TryFrom", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(try_from = String)] a: u8 }'),
    ("from of a type without regex", '#[derive(sscanf::FromScanf)] #[sscanf("{}")] struct S { #[sscanf(from = types::NoRegex)] a: u8 }'),
    ("input is a number", 'fn f() { let _ = sscanf::sscanf!(5usize, "{}", usize); }'),
    ("input is bytes", 'fn f() { let _ = sscanf::sscanf!(b"5", "{}", usize); }'),
    ("input is a char", "fn f() { let _ = sscanf::sscanf!('5', \"{}\", usize); }"),
    ("input is an option", 'fn f() { let _ = sscanf::sscanf!(Some("5"), "{}", usize); }'),
    ("input is a path", 'fn f() { let _ = sscanf::sscanf!(std::path::Path::new("5"), "{}", usize); }'),
    ("input is an OsString", 'fn f() { let _ = sscanf::sscanf!(std::ffi::OsString::new(), "{}", usize); }'),
    ("input is a vector", 'fn f() { let _ = sscanf::sscanf!(vec![5u8], "{}", usize); }'),
    ("input is a unit", 'fn f() { let _ = sscanf::sscanf!((), "{}", usize); }'),
    ("input is a closure", 'fn f() { let _ = sscanf::sscanf!(|| "5", "{}", usize); }'),
    ("input is a number (unescaped)", 'fn f() { let _ = sscanf::sscanf_unescaped!(5usize, "{}", usize); }'),
    ("unknown type", 'fn f() { let _ = sscanf::sscanf!("5", "{}", Nowhere); }'),
    ("unknown inline type", 'fn f() { let _ = sscanf::sscanf!("5", "{Nowhere}"); }'),
    ("unknown inline path", 'fn f() { let _ = sscanf::sscanf!("5", "{nowhere::Type:/x/}"); }'),
    ("unknown type in radix", 'fn f() { let _ = sscanf::sscanf!("5", "{std::collections::Nowhere}"); }'),
    ("result of another type", 'fn f() { let _: Result<u16, sscanf::Error> = sscanf::sscanf!("5", "{u8}"); }'),
    ("result with too few values", 'fn f() { let (a, b): (u8, u8) = sscanf::sscanf!("5", "{u8}").unwrap(); }'),
    ("generic type without bounds", 'fn f<T>() { let _ = sscanf::sscanf!("5", "{}", Vec<T>); }'),
    ("unsized result", 'fn f() { let _ = sscanf::sscanf!("5", "{}", [u8]); }' if False else 'fn f() { let _ = sscanf::sscanf!("5", "{}", dynless::X); }'),
    ("from_str of a type without the trait", 'fn f() { let _ = <types::Foo as sscanf::FromScanf>::from_str("x"); }'),
]

SOUP = ["{", "}", "{", "}", "{}", "{{", "}}", ":", "/", "\\", "#", "x", "o", "b", "r", "1", "6", "0", "u8", "str", "a", " ", "日", "\n", '"', "::", "//", "^", "(", ")", "*", "?", "'", "&", "<", ">", "\u0301", "{:/", "/}",
        "\\/", "{u8:", "x}", "$", "[", "]", "|", "\t", "\0", "\U0001F600", "-", "+", ".", ",", ";", "!", "_", "r#", "\r"]
TOKENS = ['"{}"', '"x"', ",", ",", "u8", "String", "=", "&", "str", "'a", "5", "|x|", "|x: u8|", "#", "::", "<", ">", "!", "..", "fn", "struct", "_", "+", "-", "?", ";", "$crate", "r\"{}\"", 'b"x"', "'c'", "1.5", "format", "default", "map",
          "transparent", "autogen", "skip", "from", "sscanf", "mut", "dyn", "impl", "for", "if", "match", "=>", "->", "@", "~", "self", "crate", "as", "where", "loop", "r#type", '"{"', '"{:x}"', "\"{:/(/}\"", "x", "async", "unsafe", "0xff",
          '"\\u{301}"', '"日{"', "&str", "Cow<str>", "u8", "concat!", "\"{a}\"", "{", "("]


def tokens(r, n):
    s, stack = [], []
    for _ in range(n):
        t = r.choice(TOKENS)
        if t == "{" or t == "(":
            s.append(t)
            stack.append("}" if t == "{" else ")")
        else:
            if stack and r.random() < 0.3:
                s.append(stack.pop())
            s.append(t)
    s += reversed(stack)
    return " ".join(s).replace("$crate", "crate")


def check(d, res):
    thorough = res.tier == "thorough"
    res.rules.append("Misused attributes, placeholders, options, regexes, type lists and arguments (systematic lists and seeded combinations) and random token and character soups "
                     "are given to the macros in a real compiler; each misuse must draw an error that is no panic, and no input may make a macro panic. A case is one program with its diagnostics; "
                     "all are distinct and non-trivial.")
    cases = generate(ct.rng(d.SEED, "p18"), thorough)
    run(d, res, "p18a", cases, True)
    run(d, res, "p18b", [(w, i, True) for w, i in TYPED], False)
    if thorough:
        run(d, res, "p18n", cases, True, toolchain="nightly")


def generate(r, thorough):
    r.bags = {}
    cases = []  # (what, source, must be rejected, rejected by the macro itself)
    for what, item in attributes(9 if thorough else 2) + macro_calls():
        cases.append((what, item, True))
    per = 200 if thorough else 40
    lists = {"bad_option": formats.BAD_OPTIONS, "bad_regex": formats.BAD_REGEX, "capture": formats.CAPTURES, "bad_name": formats.BAD_NAMES}
    for kind in formats.KINDS:
        # everything in the lists at least once
        for _ in range(max(per, len(lists.get(kind, "")) * (6 if thorough else 1))):
            f, _m = formats.faulty(r, kind)
            lit = f.l.source()
            types = "".join(", " + t for t in f.types)
            m = r.choice(['sscanf!("x", %s%s)', 'sscanf!("x", %s%s)', 'sscanf_unescaped!("x", %s%s)', "sscanf_get_regex!(%s%s)"]) % (lit, types)
            cases.append((kind, "fn f() { let _ = sscanf::%s; }" % m, True))
    for kind in formats.DERIVE_KINDS:
        for _ in range(per):
            l, _m, fields = formats.faulty_derive(r, kind)
            a = r.choice(["format = %s", "%s", "format_unescaped = %s"]) % l.source()
            item = "#[derive(sscanf::FromScanf)]\n#[sscanf(%s)]\nstruct S { %s }" % (a, fields)
            if r.random() < 0.4:
                item = "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(%s)]\nA { %s } }" % (a, fields)
            cases.append(("derive " + kind, item, True))
    soups = 20000 if thorough else 4000
    for i in range(soups):
        v = "".join(r.choice(SOUP) for _ in range(r.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])))
        if i % 3 == 0:
            v = "{" + v + "}"
        lit = ct.literal(v, r, 0.2)
        k = i % 4
        if k == 0:
            item = 'fn f() { let _ = sscanf::sscanf!("x", %s, u8, str); }' % lit
        elif k == 1:
            item = 'fn f() { let _ = sscanf::sscanf_unescaped!("x", %s); }' % lit
        elif k == 2:
            item = "#[derive(sscanf::FromScanf)]\n#[sscanf(format = %s)]\nstruct S { u8: u8, a: String }" % lit
        else:
            item = "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(%s)]\nS(u8, #[sscanf(default)] u8), #[sscanf(\"x\")] B }" % lit
        cases.append(("soup", item, False))
    for i in range(soups // 2):
        t = tokens(r, r.choice([1, 2, 3, 4, 6, 9, 14]))
        k = i % 8
        item = {
            0: "fn f() { let _ = sscanf::sscanf!(%s); }", 1: "fn f() { let _ = sscanf::sscanf_get_regex!(%s); }", 2: 'fn f() { let _ = sscanf::sscanf!("x", %s); }',
            3: "#[derive(sscanf::FromScanf)]\n#[sscanf(%s)]\nstruct S(u8);", 4: '#[derive(sscanf::FromScanf)]\n#[sscanf("{}")]\nstruct S(#[sscanf(%s)] u8);',
            5: "#[derive(sscanf::FromScanf)]\n#[sscanf(%s)]\nenum E { A, B }", 6: "#[derive(sscanf::FromScanf)]\nenum E { #[sscanf(%s)]\nA(u8), #[sscanf(skip)] B }",
            7: 'fn f() { let _ = sscanf::sscanf!("x", "{}", %s); }',
        }[k] % t
        cases.append(("token soup", item, False))
    return cases


def run(d, res, name, cases, by_macro, toolchain=None):
    snippets = []
    for n, (what, item, _) in enumerate(cases):
        snippets.append("mod m%d { use crate::types; %s\n}\n" % (n, item))
    out, crashes = ct.bisect_crash(d, name, snippets, header=HEADER, toolchain=toolchain)
    for i in crashes:
        res.violation("crash|" + cases[i][1], "the compiler crashed on\n%s\n%s" % (cases[i][1], out.rest[0].rendered))
    if crashes:
        return
    for g in out.rest:
        if g.panicked():
            res.violation("panic|" + g.message, "a macro panicked:\n" + g.rendered[:2000])
    bad = 0
    for (what, item, must), diags in zip(cases, out.by):
        res.evaluations += 1
        res.distinct += 1
        errors = [g for g in diags if g.level == "error"]
        res.count("diagnostics", len(errors))
        res.count("kind: " + what.split(" ")[0] if not by_macro or what in formats.KINDS or "soup" in what else "kind: attributes and arguments")
        for g in errors:
            if g.panicked() or g.level.startswith("error: internal"):
                res.violation("panic|" + item, "a macro panicked on\n%s\n%s" % (item, g.rendered[:2000]))
        if must:
            if not errors:
                res.violation("accepted|" + item, "misuse (%s) was not rejected:\n%s" % (what, item))
            else:
                # a message of the macros has no code; where only the compiler can know, any error will do
                own = [g for g in errors if g.code is None and g.message.strip()]
                if by_macro and not own:
                    res.violation("message|" + item, "misuse (%s) got no message of the crate:\n%s\n%s" % (what, item, errors[0].rendered[:1500]))
        elif errors:
            res.count("soups rejected")
        else:
            res.count("soups accepted")
        if errors and bad % 97 == 0:
            res.sample("%s => %s" % (item.replace("\n", " ")[:200], errors[0].message.split("\n")[0][:120]))
        bad += 1
