
//! Literals whose meaning is decided by the compiler: every literal is used as a format string and
//! as an ordinary expression.
use crate::rng::Rng;

fn piece(r: &mut Rng) -> String {
    const P: &[&str] = &[
        "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", "\\\"", "\\x41", "\\x7f", "\\x00", "\\x5C", "\\x7B\\x7b", "\\u{41}", "\\u{1F600}",
        "\\u{0_0_4_1_}", "\\u{e9}", "\\u{65}\\u{301}", "\\u{7b}\\u{7b}", "\\u{7D}}", "}\\x7d", "\\u{10FFFF}", "\\u{d7ff}", "\\u{22}", "\\u{5c}", "\\x22",
        "{{", "}}", "{{}}", "{{{{", "}}}}", "{{n}}", "{{0}}",
        "\\\n", "\\\n   ", "\\\n\t \t", "\\\n\n\n  ", "\\\n\u{a0}", "\\\n\u{3000}x", "\\\n \u{2003}", "\\\n\u{b}", "\\\n  \\\n ", "\\\n\\n", "\\\n \\x20",
        "\n", "\t", "  ", "\n\n", "'", "a", "é", "ß", "n", "r", "t", "x41", "u", "0", "\u{301}", "\u{200d}", "🦀", "中", "K", "k", "\u{212a}",
        ".", "*", "+", "?", "^", "$", "|", "(", ")", "[", "]", "#", "&", "-", "~", "/", ":", "(?i)", "(?:", "[a-z]", "\\\\d", "\\\\b", "\\\\\\\\", ".*",
    ];
    r.pick(P).to_string()
}
fn raw_piece(r: &mut Rng) -> String {
    const P: &[&str] = &[
        "\\n", "\\", "\\\\", "\\x41", "\\u{{41}}", "'", "\"", "\\\"", "{{", "}}", "{{}}", "\n", "\t", "\\\n  ", "#", "\"#", "\"##", "a", "é", "🦀",
        "\\d", ".", "(", ")", "[", "|", "^", "$", "+", "/", "\\/", " ",
    ];
    r.pick(P).to_string()
}

/// (literal, rest of the doc) pairs and blocks of consecutive characters
pub fn literals(seed: u64, thorough: bool) -> Vec<String> {
    let mut r = Rng::new(seed, "literals");
    let mut v: Vec<String> = vec!["\"\"".into(), "r\"\"".into(), "r####\"\"####".into(), "\"\\\n\"".into(), "\"\\\n  \"".into()];
    for _ in 0..if thorough { 400 } else { 110 } {
        let n = r.range(1, 6);
        let s: String = (0..n).map(|_| piece(&mut r)).collect();
        v.push(format!("\"{s}\""));
    }
    for _ in 0..if thorough { 120 } else { 40 } {
        let n = r.range(1, 6);
        let s: String = (0..n).map(|_| raw_piece(&mut r)).collect();
        let mut h = r.below(2);
        while s.contains(&format!("\"{}", "#".repeat(h))) {
            h += 1;
        }
        let h = "#".repeat(h);
        v.push(format!("r{h}\"{s}\"{h}"));
    }
    v
}
pub fn blocks(seed: u64, thorough: bool) -> Vec<String> {
    let mut r = Rng::new(seed, "blocks");
    let mut v = vec![];
    let mut push = |start: u32| {
        let s: String = (start..start + 256).filter_map(char::from_u32).collect();
        v.push(if s.is_empty() { return } else { s });
    };
    // the whole of the planes in which something is special, and a sample of the others
    for b in 0..if thorough { 0x1100u32 } else { 0x34 } {
        push(b * 256);
    }
    for b in [0xa6, 0xfb, 0xfe, 0xff, 0x104, 0x118, 0x1e9, 0x1f6, 0xe00, 0x10ff] {
        push(b * 256);
    }
    if !thorough {
        for _ in 0..16 {
            push(r.below(0x1100) as u32 * 256);
        }
    }
    v
}

pub fn emit(seed: u64, thorough: bool) -> String {
    let mut s = String::from("use harness::*; use sscanf::*;\n#[allow(clippy::all)]\npub static LITS: &[(&str, fn(&str) -> Obs, &str)] = &[\n");
    let lits = literals(seed, thorough);
    for l in &lits {
        s += &format!("(\"macro\", |i| obs(sscanf!(i, {l})), {l}),\n");
    }
    for n in 0..lits.len() {
        s += &format!("(\"derive\", |i| obs(sscanf!(i, \"{{Lit{n}}}\").map(|_| ())), {}),\n", lits[n]);
    }
    for b in blocks(seed, thorough) {
        let e: String = b.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect();
        let e = e.replace("\\u{7b}", "{{").replace("\\u{7d}", "}}");
        s += &format!("(\"block\", |i| obs(sscanf!(i, \"{e}\")), \"{e}\"),\n");
    }
    s += "];\n";
    for (n, l) in lits.iter().enumerate() {
        if l.starts_with('r') {
            s += &format!("#[derive(FromScanf)] #[sscanf(format = {l})] pub struct Lit{n};\n");
        } else {
            s += &format!("#[derive(FromScanf)] #[sscanf({l})] pub struct Lit{n};\n");
        }
    }
    s
}
