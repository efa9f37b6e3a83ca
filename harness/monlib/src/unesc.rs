//! Unescaped formats with regexes that the model cannot express; the regex crate itself is their oracle.
use crate::gen::*;
use crate::rng::Rng;

/// (the regex as the regex crate has to see it, with `⟨u8⟩` and `⟨str⟩` for placeholders; interesting inputs)
pub const UNESCAPED: &[(&str, &[&str])] = &[
    ("a|b", &["a", "b", "ab", "ba"]),
    ("a|b|", &["a", "b", "", "c"]),
    ("⟨u8⟩(?:,|;)⟨u8⟩", &["1,2", "1;2", "1|2", "12"]),
    ("\\d+⟨str⟩", &["12ab", "1a", "a"]),
    ("[^⟨⟩]", &["a", "⟨", "b"]),
    ("(?i)x⟨u8⟩y", &["x1y", "X1Y", "x1Y", "z1y"]),
    ("(?i:x)⟨str⟩x", &["xax", "Xax", "xaX", "XXx"]),
    ("⟨u8⟩(?i)k", &["1k", "1K", "1\u{212a}"]),
    ("⟨u8⟩(?x) a b # comment\n c", &["1abc", "1a b c", "1abcomment\n c"]),
    ("(?x) ⟨u8⟩ [ab] [\\ ] # one\n # two\n", &["1a ", "1b ", "1a", " 1a "]),
    ("(?x: ⟨u8⟩ a ) b", &["1a b", "1ab", " 1a  b"]),
    ("(?s).⟨u8⟩.", &["\n1\n", "a1b", "1"]),
    (".⟨u8⟩.", &["\n1\n", "a1b", "\r2\r"]),
    ("(?s:.)⟨str⟩", &["\na", "ab", "a\n"]),
    ("⟨u8⟩(?m)$\n^b", &["1\nb", "1b"]),
    ("(?:a|b$\\s)⟨u8⟩", &["a1", "b\n1", "b1"]),
    ("⟨u8⟩(?:c|\\s^b)", &["1c", "1\nb", "1b"]),
    ("⟨str⟩(?:c|$(?s:.*)b)", &["ac", "a\nb", "ab"]),
    ("(?m:^)a$", &["a", "a\n", "\na"]),
    ("^⟨u8⟩$", &["1", "1\n"]),
    ("\\A⟨u8⟩\\z", &["1", "a1"]),
    ("\\b⟨str⟩\\b", &["ab", " a ", "a b"]),
    ("a\\b ⟨u8⟩", &["a 1", "a1"]),
    ("⟨u8⟩\\B.", &["1a", "1 ", "12"]),
    ("(?U)a+⟨str⟩", &["aaa", "ab", "aab"]),
    ("(?U:a+)⟨str⟩", &["aaa", "ab", "aab"]),
    ("a{2}⟨u8⟩", &["aa1", "a1", "a{2}1"]),
    ("a{2,3}b{1,}⟨u8⟩c{0}", &["aab1", "aaabb1", "ab1", "aabc1", "aab1c"]),
    ("x{3}", &["xxx", "x{3}", "xx"]),
    ("x{1,2}?⟨str⟩", &["xx", "xxx", "x"]),
    ("\\{⟨u8⟩\\}", &["{1}", "1", "\\{1\\}"]),
    ("[{]⟨u8⟩[}]", &["{1}", "1}"]),
    ("\\{\\{⟨u8⟩\\}\\}", &["{{1}}", "{1}"]),
    ("[{}]+⟨u8⟩", &["{}1", "}{}1", "1"]),
    ("\\\\⟨u8⟩\\\\", &["\\1\\", "1"]),
    ("\\\\d⟨u8⟩", &["\\d1", "11", "d1"]),
    ("[\\\\]⟨u8⟩", &["\\1"]),
    ("\\n⟨u8⟩\\t", &["\n1\t", "n1t", "\\n1\\t"]),
    ("\n⟨u8⟩\t", &["\n1\t", "n1t"]),
    ("\\r?\\n⟨u8⟩", &["\r\n1", "\n1", "\r1"]),
    ("\\x41⟨u8⟩\\u00e9\\u{1F600}\\x{e9}", &["A1é😀é", "x41", "A1é😀"]),
    ("\\p{Lu}⟨u8⟩\\PL", &["A1 ", "É1,", "a1 ", "A1a"]),
    ("[\\p{Greek}--α]⟨u8⟩[a-z&&[^x]]", &["β1a", "α1a", "β1x"]),
    ("[[:alpha:]]⟨u8⟩[[:^digit:]]", &["a1b", "Z1 ", "a11"]),
    ("\\w⟨u8⟩\\W", &["a1 ", "_1-", "é1é", " 1a"]),
    ("\\s*⟨u8⟩\\s*", &[" 1 ", "1", "\u{3000}1\t\n"]),
    ("\\s+⟨str⟩\\s+", &[" a ", "  a b  ", "   ", "a"]),
    ("\\#⟨u8⟩\\-\\&\\~", &["#1-&~", "1"]),
    ("#⟨u8⟩", &["#1", "1"]),
    ("\"⟨str⟩\"#", &["\"a\"#", "\"\"\"#", "a"]),
    ("'⟨str⟩'", &["'a'", "'''"]),
    ("\\.⟨u8⟩.", &[".1a", "a1a", ".1"]),
    ("\\$⟨u8⟩\\^\\*\\+\\?\\|\\(\\)\\[\\]", &["$1^*+?|()[]"]),
    ("[]a]⟨u8⟩[^]b]", &["]1c", "a1]", "b1c"]),
    ("[a\\-z]⟨u8⟩[+--]", &["a1+", "-1,", "b1-", "z1-"]),
    ("(?:⟨u8⟩)", &["1", "a"]),
    ("(?:(?:a|b)⟨u8⟩)(?:c|d)?", &["a1", "b1c", "a1d", "c1"]),
    ("(?:⟨u8⟩,)+", &["1,", "1,2,", "1,2,3,", "1,300,2,", "1"]),
    ("(?:a⟨str⟩b)+", &["axb", "axbayb", "aabb", "ab"]),
    ("(?:⟨u8⟩,)+⟨str⟩(?:;⟨u8⟩){2}", &["1,a;1;2", "1,2,a;3;4", "1,a;1"]),
    ("⟨str⟩(?:a|b)*", &["xab", "ab", "x", "abx"]),
    ("(?:a|b)*⟨str⟩", &["xab", "ab", "x", "abx"]),
    ("a*⟨str⟩a*", &["aaa", "aba", "a", "b"]),
    ("a*?⟨str⟩a*?", &["aaa", "aba", "a", "b"]),
    ("(?:a+)+⟨str⟩", &["aaa", "aab"]),
    (".*⟨u8⟩", &["123", "a1", "1"]),
    (".*?⟨u8⟩", &["123", "a1", "1234"]),
    (".+⟨str⟩.+", &["abc", "ab", "abcdef"]),
    ("⟨str⟩⟨u8⟩", &["ab12", "1234", "a"]),
    ("⟨u8⟩⟨u8⟩⟨u8⟩", &["123", "123456", "12"]),
    ("(?:)⟨u8⟩", &["1", ""]),
    ("|a", &["", "a", "b"]),
    ("é⟨str⟩🦀+", &["éx🦀", "éx🦀🦀", "e\u{301}x🦀"]),
    ("[é-ü]⟨u8⟩", &["ê1", "é1", "e1"]),
    ("(?i)ß|ǆ", &["ß", "ẞ", "ǅ", "Ǆ"]),
    ("(?-u:\\d)⟨str⟩", &["1a", "١a"]),
    ("\\d⟨str⟩", &["1a", "١a"]),
    ("a/b⟨u8⟩", &["a/b1", "a\\/b1"]),
    ("a\\/b⟨u8⟩", &["a/b1", "a\\/b1"]),
    (":⟨u8⟩::/x/", &[":1::/x/"]),
    ("\\x7b⟨u8⟩\\x7D", &["{1}", "\\x7b1"]),
    ("\\u{7B}\\x{7d}⟨u8⟩", &["{}1"]),
    ("%⟨u8⟩%%d", &["%1%%d", "%1%d"]),
    ("a |b⟨u8⟩|⟨u8⟩ c", &[]),
    ("\\a⟨u8⟩\\f\\v", &["\u{7}1\u{c}\u{b}"]),
    ("(?:\\+|-)⟨u8⟩", &["+1", "-1", "++1", "-+1"]),
    ("(?:a⟨u8⟩|a1b)?c", &[]),
    ("\u{feff}⟨u8⟩", &["\u{feff}1", "1"]),
    ("\0⟨u8⟩\\x00", &["\u{0}1\u{0}", "01"]),
    ("(?:x|⟨u8⟩)y", &[]),
];

/// all of the above and, for every punctuation character, what it is on its own, behind backslashes and in
/// classes
pub fn unescaped() -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> =
        UNESCAPED.iter().map(|(re, i)| (re.to_string(), i.iter().map(|i| i.to_string()).collect())).collect();
    for c in (33u8..127).map(char::from).filter(|c| c.is_ascii_punctuation()).chain([' ', 'a', '0', 'é']) {
        let special = "()[]{}*+?|^$.\\".contains(c);
        let escapable = c.is_ascii_punctuation() && !"<>".contains(c);
        let mut re = String::new();
        let mut input = String::new();
        let mut part = |r: String, i: String| {
            re += &r;
            input += &i;
        };
        if !special {
            part(format!("{c}"), format!("{c}"));
        }
        part("⟨u8⟩".into(), "1".into());
        if escapable {
            part(format!("\\{c}"), format!("{c}"));
            part(format!("(?:\\{c}){{2}}"), format!("{c}{c}"));
            part(format!("[\\{c}]"), format!("{c}"));
            part(format!("[^\\{c}]"), "b".into());
        }
        // an escaped backslash, and whatever the character means then
        part(format!("\\\\(?:{})", if special { format!("\\{c}") } else { c.to_string() }), format!("\\{c}"));
        if !"()[]{}".contains(c) {
            let plain = if "*+?".contains(c) { "\\" } else if "|^$".contains(c) { "" } else { &format!("\\{c}")[..] };
            if !"|^$\\".contains(c) {
                part(format!("\\\\{c}"), plain.to_string());
                part(format!("\\\\\\\\{c}"), format!("\\{plain}"));
            }
            part("⟨str⟩".into(), "x".into());
        }
        if !"[]^\\".contains(c) {
            part(format!("[{c}]"), format!("{c}"));
            part(format!("[{c}q]+"), format!("q{c}"));
            part(format!("[^{c}]"), "\\".into());
        }
        let without: String = input.chars().filter(|x| *x != '\\').collect();
        v.push((re, vec![input.clone(), without, input.replace('\\', "\\\\"), input.replace(c, "b")]));
    }
    v
}

/// the format string value: doubled braces, `{..}` for the placeholders
pub fn template(re: &str, ph: &[(&str, &str)]) -> String {
    let mut s = escape_braces(re);
    for (from, to) in ph {
        s = s.replace(from, to);
    }
    s
}

pub fn emit(seed: u64) -> String {
    let mut r = Rng::new(seed, "unescaped-literals");
    let mut s = String::new();
    let mut calls = String::from("fn hand_written() -> Vec<HandWritten> { vec![\n");
    let all = unescaped();
    for (n, (re, _)) in all.iter().enumerate() {
        // a placeholder that may not take part is outside of what the crate supports
        if all[n].1.is_empty() {
            continue;
        }
        let inline = template(re, &[("⟨u8⟩", "{u8}"), ("⟨str⟩", "{&str}")]);
        let auto = template(re, &[("⟨u8⟩", "{}"), ("⟨str⟩", "{}")]);
        let mut types = vec![];
        let mut rest = &re[..];
        while let Some(at) = rest.find('⟨') {
            if rest[at..].starts_with("⟨u8⟩") {
                types.push("u8");
            } else if rest[at..].starts_with("⟨str⟩") {
                types.push("&'a str");
            }
            rest = &rest[at + '⟨'.len_utf8()..];
        }
        let list: String = types.iter().map(|t| format!(", {}", t.replace("'a ", ""))).collect();
        let attr = "format_unescaped";
        let (lt, fields, shown) = if types.is_empty() {
            ("", String::new(), String::new())
        } else {
            (
                if types.contains(&"&'a str") { "<'a>" } else { "" },
                format!("({})", types.join(", ")),
                (0..types.len()).map(|k| format!("self.{k}.show()")).collect::<Vec<_>>().join(", "),
            )
        };
        let any = if lt.is_empty() { "" } else { "<'_>" };
        s += &format!(
            "#[derive(sscanf::FromSscanf)] #[sscanf({attr} = {})] struct X{n}{lt}{fields};\n\
             impl Show for X{n}{any} {{ fn show(&self) -> String {{ let v: Vec<String> = vec![{shown}]; format!(\"D({{}})\", v.join(\",\")) }} }}\n\
             #[derive(sscanf::FromScanf)] enum E{n}{lt} {{ #[sscanf(\"never\")] N, #[sscanf({attr} = {})] V{fields} }}\n\
             impl Show for E{n}{any} {{ fn show(&self) -> String {{ match self {{ E{n}::N => \"N\".into(), E{n}::V{} => {{ let v: Vec<String> = vec![{}]; format!(\"D({{}})\", v.join(\",\")) }} }} }} }}\n",
            string_lit(&auto, LitStyle::Any, &mut r),
            string_lit(&auto, LitStyle::Any, &mut r),
            if types.is_empty() { String::new() } else { format!("({})", (0..types.len()).map(|k| format!("a{k}")).collect::<Vec<_>>().join(", ")) },
            (0..types.len()).map(|k| format!("a{k}.show()")).collect::<Vec<_>>().join(", "),
        );
        let mac = ["sscanf_unescaped", "sscanf::scanf_unescaped", "::sscanf::sscanf_unescaped"][n % 3];
        calls += &format!(
            "HandWritten {{ n: {n},\n alone: [hand!(|i| {mac}!(i, {})), hand!(|i| sscanf_unescaped!(i, {}{list})), hand!(|i| sscanf_unescaped!(i, {}))],\n \
             derived: [hand!(|i| sscanf!(i, \"{{X{n}}}\")), hand!(|i| sscanf!(i, \"{{}}\", E{n})), hand!(|i| sscanf_unescaped!(i, \"{{}}\", X{n}))],\n \
             around: [hand!(|i| sscanf!(i, \"<{{X{n}}}>{{u8}}\")), hand!(|i| sscanf_unescaped!(i, \"(?:<|x){{E{n}}}>{{u8}}\"))] }},\n",
            string_lit(&inline, LitStyle::Raw, &mut r),
            string_lit(&auto, LitStyle::Plain, &mut r),
            string_lit(&inline, LitStyle::Any, &mut r),
        );
    }
    calls += "]}\n";
    s + &calls
}
