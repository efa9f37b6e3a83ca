
//! Custom regexes that the model cannot express; the regex crate itself is their oracle.
/// (regex, as the regex crate has to see it; inputs that are interesting for it)
pub const EXOTIC: &[(&str, &[&str])] = &[
    ("a|b", &["a", "b", "ab"]),
    ("|a", &["", "a"]),
    ("a|", &["", "a"]),
    ("a||b", &["", "a", "b"]),
    ("ab|a|abc", &["ab", "a", "abc"]),
    ("(?:)", &["", "x"]),
    ("(?i)ab|cd", &["ab", "AB", "CD", "cD", "aB"]),
    ("(?i)k|s", &["k", "K", "\u{212a}", "\u{17f}"]),
    ("(?i-u)k", &["k", "K", "\u{212a}"]),
    ("(?i)a(?-i)b", &["ab", "Ab", "aB"]),
    ("(?i:a)b", &["ab", "Ab", "aB"]),
    ("(?s).", &["a", "\n"]),
    ("(?s).+", &["a\nb", "\n\n"]),
    ("(?m)^a$", &["a", "a\n"]),
    ("(?m)a$\\n^b", &["a\nb", "ab"]),
    ("^a", &["a"]),
    ("a$", &["a"]),
    ("^a$", &["a"]),
    ("\\Aa\\z", &["a"]),
    ("\\ba\\b", &["a"]),
    ("\\Ba", &["a"]),
    ("(?U)a+", &["a", "aaa"]),
    ("(?U)a+?", &["a", "aaa"]),
    ("a{2,3}", &["a", "aa", "aaa", "aaaa"]),
    ("a{2}", &["aa", "aaa"]),
    ("a{2,}?", &["aa", "aaaa"]),
    ("a*?", &["", "aaa"]),
    ("[{}]", &["{", "}"]),
    ("\\{\\}", &["{}"]),
    ("\\{[^}]*\\}", &["{}", "{abc}"]),
    ("[^}]+", &["abc", "{{"]),
    ("\\\\", &["\\"]),
    ("\\\\\\\\", &["\\\\"]),
    ("[\\\\]", &["\\"]),
    ("[\\]]", &["]"]),
    ("[]a]", &["]", "a"]),
    ("[a\\-z]", &["a", "-", "z", "b"]),
    ("[^\\n]", &["a", "\n"]),
    ("\\n", &["\n"]),
    ("\\t| ", &["\t", " "]),
    ("\\r\\n|\\n", &["\r\n", "\n"]),
    ("\\x41", &["A"]),
    ("\\x{1F600}", &["😀"]),
    ("\\u{e9}", &["é"]),
    ("\\u00e9", &["é"]),
    ("\\p{Lu}+", &["A", "É", "a"]),
    ("\\P{L}", &["1", "a"]),
    ("\\pN", &["1", "½", "١"]),
    ("[\\p{Greek}--[α]]", &["β", "α"]),
    ("[a-z&&[^x]]", &["a", "x"]),
    ("[[:alpha:]]", &["a", "Z", "é"]),
    ("[[:^digit:]]", &["a", "1"]),
    ("\\w+", &["aé_1"]),
    ("(?-u:\\w)+", &["a_1", "é"]),
    ("\\d", &["1", "١"]),
    ("\\D", &["a", "1"]),
    ("\\s\\S", &[" a", "\u{3000}b"]),
    ("a/b", &["a/b", "a\\/b"]),
    ("/", &["/", "\\/"]),
    ("//+", &["//", "///"]),
    ("[/]", &["/", "\\"]),
    ("\\\\/", &["\\/", "/", "\\"]),
    ("[^/]+", &["ab", "/"]),
    ("a/|/b", &["a/", "/b"]),
    (":", &[":"]),
    ("::x", &["::x"]),
    ("a:b", &["a:b"]),
    ("#x", &["#x"]),
    ("(?x) a b # comment\n | c", &["ab", "c"]),
    ("(?x: a | b )c d", &["ac d", "bc d"]),
    ("\"", &["\""]),
    ("\"#", &["\"#"]),
    ("'", &["'"]),
    ("\\.", &[".", "a"]),
    (".", &["a", "é", "🦀", "\n", "\r"]),
    ("..", &["aé", "e\u{301}"]),
    ("é|🦀", &["é", "🦀", "e\u{301}"]),
    ("(?i)é|Σ", &["É", "é", "σ", "ς"]),
    ("(?:a(?:b(?:c|d)|e)+)?f", &["f", "abcf", "abdaef", "abdef", "aeabcf"]),
    ("(?:(?:a|b)(?:c|d))+", &["acbd", "ad"]),
    ("a+?b+", &["ab", "aabb"]),
    ("[0-9]+(?:\\.[0-9]+)*", &["1", "1.2.3"]),
    ("\\+|-|\\*", &["+", "-", "*"]),
    ("\\$\\^\\|\\(\\)", &["$^|()"]),
    ("[$^|()]", &["$", "^", "|", "(", ")"]),
    ("=\\(\\)", &["=()"]),
    ("x\\?y", &["x?y", "y"]),
    ("\\#\\&\\-\\~", &["#&-~"]),
    ("\\a\\f\\v", &["\u{7}\u{c}\u{b}"]),
    ("\\x{0}", &["\0"]),
    ("r#\"", &["r#\""]),
    ("(?-i)A(?i)b|c", &["Ab", "AB", "c", "C"]),
    ("(?i)(?:a|(?-i:b))c", &["AC", "bc", "Bc", "bC"]),
    ("[^a]|a", &["a", "b", "\n"]),
    ("\\pL{1,2}", &["ab", "é"]),
    ("(?u)\\w", &["é"]),
    ("(?:a|ab)(?:c|bcd)", &["ac", "abc", "abcd", "abbcd"]),
];

fn plain(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn raw(s: &str) -> String {
    crate::gen::raw_lit(s)
}

pub fn emit() -> String {
    let mut s = String::new();
    let mut calls = String::from("fn exotics() -> Vec<Exotic> { vec![\n");
    for (n, (re, inputs)) in EXOTIC.iter().enumerate() {
        let text = re.replace('/', "\\/");
        let p = format!("{{str:/{text}/}}");
        let a = format!("{{:/{text}/}}");
        let bare = format!("{{&str:/{text}/}}");
        s += &format!(
            "#[derive(sscanf::FromScanf)] #[sscanf(format = {})] struct X{n}<'a>(&'a str);\n\
             impl Show for X{n}<'_> {{ fn show(&self) -> String {{ format!(\"D({{}})\", self.0.show()) }} }}\n",
            if n % 2 == 0 { raw(&a) } else { plain(&format!("{{0:/{text}/}}")) }
        );
        calls += &format!(
            "Exotic {{ regex: {},\n alone: [hand!(|i| sscanf!(i, {})), hand!(|i| sscanf!(i, {}, &str))],\n derived: hand!(|i| sscanf!(i, \"{{X{n}}}\")),\n \
             around: [hand!(|i| sscanf!(i, {})), hand!(|i| sscanf!(i, {}, str)), hand!(|i| sscanf!(i, {}, u8, u8)), hand!(|i| sscanf!(i, {}))],\n inputs: &[{}] }},\n",
            plain(re),
            raw(&p),
            plain(&a),
            raw(&format!("<{bare}>")),
            raw(&format!("{p},{{0:/{text}/}}")),
            plain(&format!("{{}}{p}{{}}")),
            plain(&format!("A.{p}B|c")),
            inputs.iter().map(|i| plain(i)).collect::<Vec<_>>().join(", "),
        );
    }
    calls += "]}\n";
    s + &calls
}
