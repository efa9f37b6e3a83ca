//! Random generation of formats, types and inputs, and printing them as Rust source.
use crate::re::*;
use crate::rng::Rng;
use crate::spec::*;

// ---------------------------------------------------------------- string literals

/// How a string value is written as a Rust literal
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LitStyle {
    Raw,
    Plain,
    Any,
}

fn raw_ok(v: &str) -> bool {
    !v.chars().any(|c| c == '\r' || must_escape(c))
}
fn must_escape(c: char) -> bool {
    matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{200e}' | '\u{200f}' | '\u{61c}' | '\0' | '\u{feff}')
        || (c.is_control() && c != '\n' && c != '\t')
}
pub fn raw_lit(v: &str) -> String {
    let mut n = 0;
    while v.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    let h = "#".repeat(n);
    format!("r{h}\"{v}\"{h}")
}
pub fn plain_lit(v: &str, r: &mut Rng) -> String {
    let mut s = String::from("\"");
    let heavy = r.chance(1, 4);
    let chars: Vec<char> = v.chars().collect();
    for (i, c) in chars.iter().copied().enumerate() {
        match c {
            '"' => s += "\\\"",
            '\\' => s += "\\\\",
            '\r' => s += "\\r",
            '\n' if r.chance(1, 2) => s += "\\n",
            '\t' if r.chance(1, 2) => s += "\\t",
            '\0' if r.chance(1, 2) => s += "\\0",
            '\'' if r.chance(1, 2) => s += "\\'",
            c if must_escape(c) || (heavy && r.chance(1, 6)) => {
                if (c as u32) < 0x80 && r.chance(1, 2) {
                    s += &format!("\\x{:02x}", c as u32);
                } else {
                    match r.below(3) {
                        0 => s += &format!("\\u{{{:x}}}", c as u32),
                        1 => s += &format!("\\u{{{:06X}}}", c as u32),
                        _ if (c as u32) < 0x10_0000 => s += &format!("\\u{{0_{:x}}}", c as u32),
                        _ => s += &format!("\\u{{{:x}_}}", c as u32),
                    }
                }
            }
            c => s.push(c),
        }
        // line continuation: only if the next char is not skipped by it
        if heavy && r.chance(1, 25) && chars.get(i + 1).map_or(true, |n| !n.is_whitespace()) {
            s += "\\\n";
            for _ in 0..r.below(4) {
                s.push(*r.pick(&[' ', '\t']));
            }
        }
    }
    s.push('"');
    s
}
pub fn string_lit(v: &str, style: LitStyle, r: &mut Rng) -> String {
    match style {
        LitStyle::Raw if raw_ok(v) => raw_lit(v),
        LitStyle::Any if raw_ok(v) && r.chance(1, 2) => raw_lit(v),
        _ => plain_lit(v, r),
    }
}

// ---------------------------------------------------------------- formats

pub fn escape_braces(s: &str) -> String {
    s.replace('{', "{{").replace('}', "}}")
}
/// escapes for use as a regex
pub fn regex_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_punctuation() && c != '_' && c != '"' && c != '\'' && c != '/' && c != ',' && c != ':' && c != ';' && c != '=' && c != '!' && c != '%' && c != '@' && c != '<' && c != '>' && c != '`' {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

pub fn ph_text(ph: &Ph) -> String {
    let ident = match &ph.bind {
        Bind::Auto => String::new(),
        Bind::Name(n) => n.clone(),
        Bind::Inline => ph.spelled.clone(),
    };
    let opt = match &ph.opt {
        Opt::None => String::new(),
        Opt::Radix(_, _, text) => format!(":{text}"),
        Opt::Regex(_, text) => format!(":/{}/", text.replace('/', "\\/")),
    };
    format!("{{{ident}{opt}}}")
}

impl Fmt {
    /// the value of the format string
    pub fn text(&self) -> String {
        self.items
            .iter()
            .map(|i| match i {
                Item::Lit(s) if self.escaped => escape_braces(s),
                Item::Lit(s) => escape_braces(&regex_escape(s)),
                Item::Re(_, text) => escape_braces(text),
                Item::Ph(ph) => ph_text(ph),
            })
            .collect()
    }
    /// everything after the input: `<literal>, <types>`
    pub fn macro_args(&self, style: LitStyle, r: &mut Rng) -> String {
        let mut s = string_lit(&self.text(), style, r);
        for a in &self.args {
            s += ", ";
            s += a;
        }
        s
    }
}

// ---------------------------------------------------------------- types

pub fn spell(ty: &Ty, ctx: &Ctx, r: &mut Rng, fancy: bool) -> String {
    let f = |r: &mut Rng, v: &[&str]| -> String {
        if fancy { r.pick(v).to_string() } else { v[0].to_string() }
    };
    match ty {
        Ty::Int(n) => {
            let (a, b) = (format!("std::primitive::{n}"), format!("::core::primitive::{n}"));
            f(r, &[n, n, n, &a, &b])
        }
        Ty::NonZero(n) => {
            let n = nonzero_name(n);
            let (a, b) = (format!("std::num::{n}"), format!("::core::num::{n}"));
            f(r, &[&n, &a, &b])
        }
        Ty::F32 => f(r, &["f32", "std::primitive::f32"]),
        Ty::F64 => f(r, &["f64", "::std::primitive::f64"]),
        Ty::Full32 => f(r, &["sscanf::FullF32", "::sscanf::FullF32"]),
        Ty::Full64 => f(r, &["sscanf::FullF64", "::sscanf::FullF64"]),
        Ty::Hex => f(r, &["sscanf::HexNumber", "::sscanf::HexNumber"]),
        Ty::Str => f(r, &["str", "&str", "&::std::primitive::str", "std::primitive::str", "::std::primitive::str", "core::primitive::str", "::core::primitive::str", "primitive::str"]),
        Ty::Cow => f(r, &["Cow<str>", "std::borrow::Cow<str>", "::std::borrow::Cow<str>", "borrow::Cow<str>", "Cow<'_, str>", "std::borrow::Cow<'_, str>", "Cow<std::primitive::str>", "alloc::borrow::Cow<str>", "alloc::borrow::Cow<'_, ::core::primitive::str>", "::std::borrow::Cow<primitive::str>"]),
        Ty::String => f(r, &["String", "std::string::String", "::std::string::String"]),
        Ty::Char => f(r, &["char", "std::primitive::char"]),
        Ty::Bool => f(r, &["bool", "core::primitive::bool"]),
        Ty::Path => f(r, &["PathBuf", "std::path::PathBuf", "::std::path::PathBuf"]),
        Ty::Ip4 => f(r, &["Ipv4Addr", "std::net::Ipv4Addr"]),
        Ty::Ip => f(r, &["IpAddr", "std::net::IpAddr"]),
        Ty::Tag(n) => format!("T{n}"),
        Ty::Log(n) => format!("L{n}"),
        Ty::Manual(n) => MANUAL[*n].to_string(),
        Ty::Def(d) => ctx.defs[*d].name.clone(),
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ph: (usize, usize),
    /// weights: ints, nonzero, float, str, cow, string, char, bool, path, ip, tag, log, manual, def, deprecated
    pub types: [usize; 15],
    /// weights: none, radix (ints only), regex
    pub opts: [usize; 3],
    /// weights: auto, index, inline
    pub binds: [usize; 3],
    /// weights: separator, punctuation, hostile, words, empty
    pub lits: [usize; 5],
    pub fancy: bool,
    pub unescaped: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            ph: (0, 6),
            types: [30, 6, 10, 14, 5, 8, 10, 5, 3, 4, 5, 0, 3, 0, 3],
            opts: [12, 4, 4],
            binds: [6, 2, 6],
            lits: [8, 5, 3, 5, 4],
            fancy: true,
            unescaped: false,
        }
    }
}

pub const PUNCT: &[char] = &[
    '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>',
    '?', '@', '[', '\\', ']', '^', '_', '`', '{', '|', '}', '~', ' ', '\t', '\n',
];
pub const HOSTILE: &[char] = &[
    'é', 'É', 'ß', 'ẞ', 'λ', 'Σ', 'ς', '中', '🦀', '\u{301}', 'e', '\u{200d}', '\u{feff}', '\u{2028}', '\u{85}',
    '\0', '\u{7f}', '\r', '\n', '\u{1b}', '\u{202e}', '\u{17f}', '\u{212a}', 'İ', 'ı', 'i', 'ﬀ', '\u{e000}',
    '\u{10ffff}', '\u{ffff}', '\u{d7ff}', '👩', '\u{1f3fd}', '∅', '√', '１', '²', '½',
];
const WORDS: &[&str] = &["a", "the", "x", "Val", "n=", "id: ", " and ", "to", "END", "\\d", "\\n", "n", "(?:", ".*", "0", "1x", "-", "+", "e", "inf", "T"];
const SEPS: &[&str] = &[" ", ", ", ",", ";", ": ", "|", " -> ", "/", "\t", "#", " | ", "::", "_", "~", "=", "*", "(", ")", "[", "]", "{", "}", "{}", "\"", "'", "\\", "$", "^", "&&", "%", "@", "<", ">", "?", "!", "`"];

pub fn gen_lit(r: &mut Rng, w: &[usize; 5]) -> String {
    let mut s = String::new();
    match r.weighted(w) {
        0 => s += *r.pick(SEPS),
        1 => {
            for _ in 0..r.range(1, 5) {
                s.push(*r.pick(PUNCT));
            }
        }
        2 => {
            for _ in 0..r.range(1, 5) {
                s.push(*r.pick(HOSTILE));
            }
        }
        3 => {
            for _ in 0..r.range(1, 3) {
                s += *r.pick(WORDS);
            }
        }
        _ => {}
    }
    s
}

/// random regex without nullable loop bodies
pub fn gen_re(r: &mut Rng, depth: u32) -> Node {
    let atom = |r: &mut Rng| match r.below(8) {
        0 => Node::Any,
        1 => digit(),
        2 => if r.chance(1, 3) { Node::UDigit } else { digit() },
        3 => set(&[('a', 'z')]),
        4 => {
            let a = *r.pick(&['a', 'k', 'A', '0', '!', ' ']);
            let b = char::from_u32(a as u32 + r.below(8) as u32).unwrap();
            Node::Set(vec![(a, b), ('x', 'z')], r.chance(1, 2))
        }
        5 => Node::Char(*r.pick(PUNCT)),
        6 => Node::Char(*r.pick(&['a', 'b', 'Z', '0', '9', 'é', '中', '🦀'])),
        _ => Node::Set(vec![(*r.pick(PUNCT), '~')].into_iter().filter(|(a, b)| a <= b).collect(), r.chance(1, 3)),
    };
    if depth == 0 {
        return atom(r);
    }
    match r.below(6) {
        0 => atom(r),
        1 | 2 => Node::Cat((0..r.range(1, 3)).map(|_| gen_re(r, depth - 1)).collect()),
        3 => {
            let mut v: Vec<Node> = (0..r.range(2, 3)).map(|_| gen_re(r, depth - 1)).collect();
            if r.chance(1, 8) {
                let at = r.below(v.len() + 1);
                v.insert(at, Node::Empty);
            }
            Node::Alt(v)
        }
        _ => {
            let n = gen_re(r, depth - 1);
            if n.nullable() {
                return n;
            }
            let min = r.below(3) as u32;
            let max = if r.chance(1, 2) { None } else { Some(min + r.below(4) as u32) };
            if max == Some(0) {
                return n;
            }
            Node::Rep(Box::new(n), min, max, r.chance(2, 3))
        }
    }
}

pub fn gen_radix(r: &mut Rng) -> Opt {
    match r.below(4) {
        0 => {
            let n = r.range(2, 36) as u32;
            Opt::Radix(n, Prefix::Never, format!("r{n}"))
        }
        1 => Opt::Radix(16, Prefix::Optional, "x".into()),
        2 => {
            let (n, c) = *r.pick(&[(8, 'o'), (2, 'b')]);
            Opt::Radix(n, Prefix::Optional, c.to_string())
        }
        _ => {
            let (n, c) = *r.pick(&[(16, 'x'), (8, 'o'), (2, 'b')]);
            let t = if r.chance(1, 2) { format!("#{c}") } else { format!("{c}#") };
            Opt::Radix(n, Prefix::Forced, t)
        }
    }
}

pub fn gen_ty(r: &mut Rng, cfg: &Cfg, ctx: &Ctx) -> Ty {
    let mut w = cfg.types;
    if ctx.defs.is_empty() {
        w[13] = 0;
    }
    match r.weighted(&w) {
        0 => Ty::Int(*r.pick(&INTS)),
        1 => Ty::NonZero(*r.pick(&INTS)),
        2 => r.pick(&[Ty::F32, Ty::F64]).clone(),
        3 => Ty::Str,
        4 => Ty::Cow,
        5 => Ty::String,
        6 => Ty::Char,
        7 => Ty::Bool,
        8 => Ty::Path,
        9 => r.pick(&[Ty::Ip4, Ty::Ip]).clone(),
        10 => Ty::Tag(r.below(10)),
        11 => Ty::Log(r.below(10)),
        12 => Ty::Manual(r.below(MANUAL.len())),
        13 => Ty::Def(r.below(ctx.defs.len())),
        _ => r.pick(&[Ty::Full32, Ty::Full64, Ty::Hex]).clone(),
    }
}

/// a regex that makes sense for the type (but may also accept things the type rejects)
fn gen_custom(r: &mut Rng, ty: &Ty) -> Node {
    if r.chance(1, 30) {
        return Node::Empty;
    }
    match ty {
        Ty::Int(_) | Ty::NonZero(_) => match r.below(4) {
            0 => rep(digit(), r.range(1, 2) as u32, Some(r.range(2, 4) as u32)),
            1 => rep(set(&[('0', '9'), ('a', 'c'), ('-', '-')]), 1, None),
            2 => Node::Cat(vec![opt(Node::Char('-')), Node::Rep(Box::new(digit()), 1, None, false)]),
            _ => Node::Alt(vec![lit("7"), lit("42"), lit("x1"), lit("300")]),
        },
        Ty::F32 | Ty::F64 | Ty::Full32 | Ty::Full64 => Node::Cat(vec![
            rep(digit(), 1, None),
            opt(Node::Cat(vec![Node::Char('.'), rep(digit(), 0, Some(3))])),
        ]),
        Ty::Ip4 => rep(set(&[('0', '9'), ('.', '.')]), 1, None),
        Ty::Ip => rep(set(&[('0', '9'), ('.', '.'), (':', ':'), ('a', 'f')]), 1, None),
        Ty::Char => Node::Set(vec![('a', 'f'), ('é', 'é'), ('🦀', '🦀')], r.chance(1, 3)),
        Ty::Bool => Node::Alt(vec![lit("true"), lit("false"), lit("yes")]),
        Ty::Tag(_) | Ty::Log(_) => rep(set(&[('a', 'z'), ('W', 'Z'), ('0', '9')]), 1, Some(4)),
        _ => {
            let d = r.range(1, 3) as u32;
            gen_re(r, d)
        }
    }
}
pub fn regex_opt(n: Node, r: &mut Rng) -> Opt {
    let mut text = n.print(r);
    if let (Node::Alt(_), true) = (&n, r.chance(1, 4)) {
        text = format!("(?:{text})");
    }
    Opt::Regex(n, text)
}

pub fn gen_opt(r: &mut Rng, cfg: &Cfg, ty: &Ty) -> Opt {
    if matches!(ty, Ty::Def(_) | Ty::Manual(_) | Ty::Hex) {
        return Opt::None;
    }
    if matches!(ty, Ty::Ip4 | Ty::Ip) {
        return regex_opt(gen_custom(r, ty), r);
    }
    let mut w = cfg.opts;
    if !matches!(ty, Ty::Int(_)) {
        w[1] = 0;
    }
    match r.weighted(&w) {
        0 => Opt::None,
        1 => gen_radix(r),
        _ => {
            let n = gen_custom(r, ty);
            regex_opt(n, r)
        }
    }
}

pub fn gen_fmt(r: &mut Rng, cfg: &Cfg, ctx: &Ctx) -> Fmt {
    let mut n = r.range(cfg.ph.0, cfg.ph.1);
    if cfg.ph.1 > 1 && r.chance(1, 40) {
        n = r.range(9, 20);
    }
    let mut items = vec![];
    let push_lit = |items: &mut Vec<Item>, r: &mut Rng| {
        if cfg.unescaped && r.chance(1, 2) {
            let d = r.range(0, 2) as u32;
            let node = gen_re(r, d);
            let mut text = node.print(r);
            if matches!(node, Node::Alt(_)) {
                text = format!("(?:{text})");
            }
            items.push(Item::Re(node, text));
            return;
        }
        let s = gen_lit(r, &cfg.lits);
        if !s.is_empty() {
            items.push(Item::Lit(s));
        }
    };
    // first decide on the args and which placeholder uses which
    let mut args: Vec<(Ty, String)> = vec![];
    let mut phs: Vec<Ph> = vec![];
    let mut auto = 0;
    for _ in 0..n {
        match r.weighted(&cfg.binds) {
            0 => {
                // auto: the next index; an arg may already exist because of an explicit index
                if auto == args.len() {
                    let ty = gen_ty(r, cfg, ctx);
                    let s = spell(&ty, ctx, r, cfg.fancy);
                    args.push((ty, s));
                }
                let (ty, spelled) = args[auto].clone();
                auto += 1;
                phs.push(Ph { ty, opt: Opt::None, bind: Bind::Auto, spelled });
            }
            1 => {
                if args.is_empty() || r.chance(1, 2) {
                    let ty = gen_ty(r, cfg, ctx);
                    let s = spell(&ty, ctx, r, cfg.fancy);
                    args.push((ty, s));
                    if r.chance(1, 3) {
                        let ty = gen_ty(r, cfg, ctx);
                        let s = spell(&ty, ctx, r, cfg.fancy);
                        args.push((ty, s));
                    }
                }
                let i = r.below(args.len());
                let (ty, spelled) = args[i].clone();
                phs.push(Ph { ty, opt: Opt::None, bind: Bind::Name(i.to_string()), spelled });
            }
            _ => {
                let ty = gen_ty(r, cfg, ctx);
                let spelled = spell(&ty, ctx, r, cfg.fancy);
                phs.push(Ph { ty, opt: Opt::None, bind: Bind::Inline, spelled });
            }
        }
    }
    // every arg has to be used
    let mut used = vec![false; args.len()];
    let mut a = 0;
    for ph in &phs {
        match &ph.bind {
            Bind::Auto => {
                used[a] = true;
                a += 1;
            }
            Bind::Name(n) => used[n.parse::<usize>().unwrap()] = true,
            Bind::Inline => {}
        }
    }
    for (i, u) in used.iter().enumerate() {
        if !u {
            let (ty, spelled) = args[i].clone();
            phs.push(Ph { ty, opt: Opt::None, bind: Bind::Name(i.to_string()), spelled });
        }
    }
    for ph in &mut phs {
        ph.opt = gen_opt(r, cfg, &ph.ty);
        if let (Opt::Radix(..), Ty::Int(n)) = (&ph.opt, &ph.ty) {
            // the option only works with the plain name
            if ph.bind == Bind::Inline {
                ph.spelled = n.to_string();
            } else if ph.spelled != *n {
                ph.opt = Opt::None;
            }
        }
    }
    push_lit(&mut items, r);
    for ph in phs {
        items.push(Item::Ph(ph));
        push_lit(&mut items, r);
    }
    // adjacent literals are merged
    Fmt { items, escaped: !cfg.unescaped, args: args.into_iter().map(|(_, s)| s).collect() }
}

// ---------------------------------------------------------------- inputs


/// one edit of a string
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let any = |r: &mut Rng| match r.below(3) {
        0 => *r.pick(ANY_CHARS),
        1 => *r.pick(PUNCT),
        _ => *r.pick(&['0', '1', '9', 'a', 'f', 'z', 'A', 'X', '-', '+', ' ', '.', 'x']),
    };
    let n = c.len();
    match r.below(9) {
        0 if n > 0 => {
            c.remove(r.below(n));
        }
        1 => c.insert(r.below(n + 1), any(r)),
        2 if n > 0 => {
            let i = r.below(n);
            c[i] = any(r);
        }
        3 if n > 1 => {
            let i = r.below(n - 1);
            c.swap(i, i + 1);
        }
        4 if n > 0 => {
            let i = r.below(n);
            let x = c[i];
            for _ in 0..r.range(1, 4) {
                c.insert(i, x);
            }
        }
        5 if n > 0 => {
            let i = r.below(n);
            let x = c[i];
            let y = if x.is_lowercase() { x.to_uppercase().next() } else { x.to_lowercase().next() };
            c[i] = y.unwrap();
        }
        6 if n > 0 => c.truncate(r.below(n)),
        7 => {
            let t = r.pick(&["\n", " ", "\0", "x", "0", "\r\n", "\u{feff}", "-"]).to_string();
            if r.chance(1, 2) {
                c.extend(t.chars());
            } else {
                for ch in t.chars().rev() {
                    c.insert(0, ch);
                }
            }
        }
        _ if n > 0 => {
            let a = r.below(n);
            let b = r.range(a, n - 1);
            let d: Vec<char> = c[a..=b].to_vec();
            let p = r.below(n + 1);
            for (i, x) in d.into_iter().enumerate() {
                c.insert(p + i, x);
            }
        }
        _ => {}
    }
    c.into_iter().collect()
}

