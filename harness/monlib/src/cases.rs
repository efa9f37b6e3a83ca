//! Enums with generated formats: every case, every way to write a variant name.
use crate::defs::CASES;

/// (identifier, its words in lower case)
pub const NAMES: &[(&str, &[&str])] = &[
    ("North", &["north"]),
    ("NorthEast", &["north", "east"]),
    ("LongNameOfThing", &["long", "name", "of", "thing"]),
    ("south_west", &["south", "west"]),
    ("SOUTH_EAST", &["south", "east"]),
    ("upWard", &["up", "ward"]),
    ("Down_Ward", &["down", "ward"]),
    ("kiloSierra", &["kilo", "sierra"]),
    ("KELVIN", &["kelvin"]),
    ("X", &["x"]),
    ("y", &["y"]),
    ("r#type", &["type"]),
    ("r#Fn", &["fn"]),
    ("Ärger", &["ärger"]),
    ("ÉtéÜber", &["été", "über"]),
    ("None", &["none"]),
    ("Some", &["some"]),
    ("Ok", &["ok"]),
    ("Err", &["err"]),
    ("north_east", &["north", "east"]),
    ("Northeast", &["northeast"]),
    ("TrailingCaps", &["trailing", "caps"]),
    ("_Leading", &["leading"]),
    ("Item2", &["item", "2"]),
    ("V4", &["v", "4"]),
    ("x86_64", &["x", "86", "64"]),
    ("Utf8Text", &["utf", "8", "text"]),
    ("HTTPServer", &["http", "server"]),
    ("Äö1ß", &["äö", "1", "ß"]),
];
fn cap(w: &str) -> String {
    let mut c = w.chars();
    let first = c.next().unwrap();
    first.to_uppercase().chain(c).collect()
}
/// the text of a name in a case, `None` for the case-insensitive one
pub fn text(case: &str, name: &str, words: &[&str]) -> Option<String> {
    let low: Vec<String> = words.iter().map(|w| w.to_lowercase()).collect();
    let up: Vec<String> = words.iter().map(|w| w.to_uppercase()).collect();
    let pascal: Vec<String> = words.iter().map(|w| cap(w)).collect();
    Some(match case {
        "CaseSensitive" => name.strip_prefix("r#").unwrap_or(name).to_string(),
        "CaseInsensitive" => return None,
        "lower case" => low.join(" "),
        "UPPER CASE" => up.join(" "),
        "lowercase" => low.concat(),
        "UPPERCASE" => up.concat(),
        "PascalCase" => pascal.concat(),
        "camelCase" => format!("{}{}", low[0], pascal[1..].concat()),
        "snake_case" => low.join("_"),
        "SCREAMING_SNAKE_CASE" => up.join("_"),
        "kebab-case" => low.join("-"),
        "SCREAMING-KEBAB-CASE" => up.join("-"),
        _ => unreachable!(),
    })
}
/// order of the variants in enum `n`
pub fn order(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..NAMES.len()).collect();
    if n % 2 == 1 {
        v.reverse();
    }
    v
}
/// what is done to variant `k` at position `i` of enum `n`: 0 generated, 1 skipped, 2 own format,
/// 3 own format with fields
pub fn treatment(n: usize, i: usize) -> usize {
    if n < 2 * CASES.len() {
        0
    } else {
        match (i * 7 + n) % 6 {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => 0,
        }
    }
}
pub const COUNT: usize = 4 * 12;
pub fn case_of(n: usize) -> &'static str {
    CASES[n / 2 % CASES.len()]
}
pub fn emit() -> String {
    let mut s = String::new();
    for n in 0..COUNT {
        let case = case_of(n);
        let attr = match (case, n % 4) {
            ("CaseSensitive", 0) => "autogen".to_string(),
            ("CaseSensitive", 1) => "autogenerate".to_string(),
            (_, 2) => format!("autogenerate = {case:?}"),
            _ => format!("autogen = {case:?}"),
        };
        s += &format!("#[derive(sscanf::FromScanf)]\n#[sscanf({attr})]\npub enum C{n} {{\n");
        let mut show = String::new();
        for (i, k) in order(n).into_iter().enumerate() {
            let (name, _) = NAMES[k];
            let path = format!("C{n}::{name}");
            match treatment(n, i) {
                0 => {
                    s += &format!("    {name},\n");
                    show += &format!("            {path} => \"#{k}\".to_string(),\n");
                }
                1 => {
                    s += &format!("    #[sscanf(skip)] {name}{},\n", if i % 2 == 0 { "" } else { "(u8)" });
                    show += &format!("            {path} {{ .. }} => \"skipped\".to_string(),\n");
                }
                2 => {
                    s += &format!("    #[sscanf(\"own{k}\")] {name},\n");
                    show += &format!("            {path} => \"#{k}\".to_string(),\n");
                }
                _ => {
                    s += &format!("    #[sscanf(format = \"f{k}={{0}}\")] {name}(u8),\n");
                    show += &format!("            {path}(x) => format!(\"#{k}={{x}}\"),\n");
                }
            }
        }
        s += &format!("}}\nimpl Show for C{n} {{\n    fn show(&self) -> String {{\n        match self {{\n{show}        }}\n    }}\n}}\n");
        s += &format!("#[derive(sscanf::FromScanf)]\n#[sscanf(format = \"{{1}}{{0}}\")]\nstruct W{n}(C{n}, char);\n");
        s += &format!("impl Show for W{n} {{ fn show(&self) -> String {{ format!(\"{{}}{{}}\", self.1, self.0.show()) }} }}\n");
    }
    s += "fn casings() -> Vec<[Hand; 3]> { vec![\n";
    for n in 0..COUNT {
        s += &format!(
            "    [hand!(|i| sscanf!(i, \"{{}}\", C{n})), hand!(|i| sscanf!(i, \"<{{C{n}}}>\")), hand!(|i| sscanf!(i, \"{{W{n}}}\"))],\n"
        );
    }
    s + "]}\n"
}
