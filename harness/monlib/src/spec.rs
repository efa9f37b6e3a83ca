//! Description of formats and types, and the reference model that predicts what parsing an input
//! has to give.
use crate::re::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    /// unsigned/signed integers by name: u8, ..., i128, usize, isize
    Int(&'static str),
    NonZero(&'static str),
    F32,
    F64,
    Full32,
    Full64,
    Hex,
    Str,
    Cow,
    String,
    Char,
    Bool,
    Path,
    /// std types with FromStr, but without a regex of their own: always used with a custom regex
    Ip4,
    Ip,
    /// `T<n>`: FromStr type of the harness, regex `[a-z]+<n>?`, the value shows its own number.
    Tag(usize),
    /// `L<n>`: FromStr type of the harness, regex `[a-zA-Z0-9]+`, logs every conversion, fails if
    /// the text contains an `X`
    Log(usize),
    /// manual FromScanf implementation of the harness (index into MANUAL)
    Manual(usize),
    /// derived type (index into `Ctx::defs`)
    Def(usize),
}

pub const INTS: [&str; 12] = [
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
];

pub fn int_bits(name: &str) -> u32 {
    match &name[1..] {
        "8" => 8,
        "16" => 16,
        "32" => 32,
        "64" => 64,
        "128" => 128,
        "size" => usize::BITS,
        _ => unreachable!("{name}"),
    }
}
pub fn int_signed(name: &str) -> bool {
    name.starts_with('i')
}
/// maximum number of decimal digits
pub fn int_digits(name: &str) -> u32 {
    match &name[1..] {
        "8" => 3,
        "16" => 5,
        "32" => 10,
        "128" => 39,
        _ => 20,
    }
}
pub fn nonzero_name(int: &str) -> String {
    let (a, b) = int.split_at(1);
    let b = if b == "size" { "size" } else { b };
    format!("NonZero{}{}", a.to_uppercase(), b)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prefix {
    Never,
    Optional,
    Forced,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Opt {
    None,
    /// radix, prefix policy, the text of the option
    Radix(u32, Prefix, String),
    /// the regex, as AST and as the text written between the slashes (before `/` escaping)
    Regex(Node, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bind {
    /// `{}`
    Auto,
    /// `{3}` or `{field}`
    Name(String),
    /// `{u8}`
    Inline,
}

#[derive(Clone, Debug)]
pub struct Ph {
    pub ty: Ty,
    pub opt: Opt,
    pub bind: Bind,
    /// how the type is written at this place
    pub spelled: String,
}

#[derive(Clone, Debug)]
pub enum Item {
    Lit(String),
    Ph(Ph),
    /// raw regex (only in unescaped formats)
    Re(Node, String),
}

#[derive(Clone, Debug)]
pub struct Fmt {
    pub items: Vec<Item>,
    pub escaped: bool,
    /// types passed after the format string, as written
    pub args: Vec<String>,
}
impl Fmt {
    pub fn phs(&self) -> impl Iterator<Item = &Ph> {
        self.items.iter().filter_map(|i| match i {
            Item::Ph(p) => Some(p),
            _ => None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Conv {
    None,
    Default,
    /// default = <expr>, giving this value
    DefaultExpr(String),
    /// map with a closure from the placeholder's type to `Mapped`
    Map,
    FilterMap,
    From,
    TryFrom,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    /// index of the placeholder it is filled from
    pub ph: Option<usize>,
    pub conv: Conv,
    /// the type of the field in the source (for converted fields: `Mapped`)
    pub decl_ty: String,
    pub default_shown: String,
    /// the attribute on the field, as written (may be empty)
    pub attr: String,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Named,
    Tuple,
    Unit,
}
#[derive(Clone, Debug)]
pub struct Body {
    pub name: String,
    pub shape: Shape,
    pub fmt: Option<Fmt>,
    pub fields: Vec<Field>,
    /// attributes, as written (may be empty)
    pub attr: String,
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub is_enum: bool,
    pub enum_attr: String,
    /// one for structs
    pub bodies: Vec<Body>,
    /// lifetime parameters (without the `'`)
    pub lifetimes: Vec<String>,
}
impl Def {
    pub fn borrows(&self) -> bool {
        !self.lifetimes.is_empty()
    }
}

#[derive(Default, Clone)]
pub struct Ctx {
    pub defs: Vec<Def>,
}

/// manual implementations in the harness: name, captures
pub const MANUAL: [&str; 2] = ["ManualPoint", "ManualOpt"];

/// How to build a value from the captures
#[derive(Clone, Debug)]
pub enum Plan {
    Leaf { ty: Ty, opt: Opt, cap: usize },
    Manual { which: usize, cap: usize, caps: Vec<usize> },
    Def { def: usize, cap: usize, bodies: Vec<(usize, usize, Vec<Plan>)> }, // (variant cap, body index, plans)
}

pub const FLOAT_WORDS: [&str; 3] = ["inf", "infinity", "nan"];
pub fn float_node() -> Node {
    let number = Node::Cat(vec![
        Node::Alt(vec![
            rep(Node::UDigit, 1, None),
            Node::Cat(vec![rep(Node::UDigit, 1, None), Node::Char('.'), rep(Node::UDigit, 0, None)]),
            Node::Cat(vec![rep(Node::UDigit, 0, None), Node::Char('.'), rep(Node::UDigit, 1, None)]),
        ]),
        opt(Node::Cat(vec![ci("e"), opt(set(&[('+', '+'), ('-', '-')])), rep(Node::UDigit, 1, None)])),
    ]);
    Node::Cat(vec![
        opt(set(&[('+', '+'), ('-', '-')])),
        Node::Alt(vec![ci("inf"), ci("infinity"), ci("nan"), number]),
    ])
}
fn hex_digit() -> Node {
    set(&[('0', '9'), ('a', 'f'), ('A', 'F')])
}
fn sign(signed: bool) -> Node {
    if signed {
        opt(set(&[('-', '-'), ('+', '+')]))
    } else {
        opt(Node::Char('+'))
    }
}
pub fn digits_in_radix(bits: u32, radix: u32) -> u32 {
    // the smallest n with radix^n >= 2^bits
    let mut n = 0;
    let mut x: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    while x > 0 {
        x /= radix as u128;
        n += 1;
    }
    n
}
pub fn radix_digit(radix: u32) -> Node {
    let mut ranges = vec![];
    if radix <= 10 {
        ranges.push(('0', (b'0' + radix as u8 - 1) as char));
    } else {
        ranges.push(('0', '9'));
        ranges.push(('a', (b'a' + radix as u8 - 11) as char));
        ranges.push(('A', (b'A' + radix as u8 - 11) as char));
    }
    Node::Set(ranges, false)
}
pub fn radix_node(int: &str, radix: u32, prefix: Prefix) -> Node {
    let p = match radix {
        16 => ci("0x"),
        8 => ci("0o"),
        _ => ci("0b"),
    };
    let p = match prefix {
        Prefix::Never => Node::Empty,
        Prefix::Optional => opt(p),
        Prefix::Forced => p,
    };
    Node::Cat(vec![
        sign(int_signed(int)),
        p,
        rep(radix_digit(radix), 1, Some(digits_in_radix(int_bits(int), radix))),
    ])
}
fn any_plus(greedy: bool) -> Node {
    Node::Rep(Box::new(Node::Any), 1, None, greedy)
}
fn cap(i: usize, n: Node) -> Node {
    Node::Cap(i, Box::new(n))
}
pub fn log_node() -> Node {
    rep(set(&[('a', 'z'), ('A', 'Z'), ('0', '9')]), 1, None)
}

impl Ctx {
    pub fn default_node(&self, ty: &Ty) -> Node {
        match ty {
            Ty::Int(n) => Node::Cat(vec![
                sign(int_signed(n)),
                rep(Node::UDigit, 1, Some(int_digits(n))),
            ]),
            Ty::NonZero(n) => Node::Cat(vec![
                sign(int_signed(n)),
                set(&[('1', '9')]),
                rep(Node::UDigit, 0, Some(int_digits(n) - 1)),
            ]),
            Ty::F32 | Ty::F64 | Ty::Full32 | Ty::Full64 => float_node(),
            Ty::Hex => Node::Alt(vec![
                Node::Cat(vec![Node::Char('0'), set(&[('x', 'x'), ('X', 'X')]), rep(hex_digit(), 1, None)]),
                rep(hex_digit(), 1, None),
            ]),
            Ty::Str | Ty::Cow | Ty::String => any_plus(false),
            Ty::Path => any_plus(true),
            Ty::Char => Node::Any,
            Ty::Bool => Node::Alt(vec![lit("true"), lit("false")]),
            Ty::Tag(n) => Node::Cat(vec![
                rep(set(&[('a', 'z')]), 1, None),
                opt(lit(&n.to_string())),
            ]),
            Ty::Log(_) => log_node(),
            Ty::Ip4 | Ty::Ip => panic!("no regex"),
            Ty::Manual(_) | Ty::Def(_) => unreachable!(),
        }
    }

    /// Grammar and evaluation plan of a placeholder. `ncaps` is the next free capture.
    pub fn ph_plan(&self, ty: &Ty, o: &Opt, ncaps: &mut usize) -> (Node, Plan) {
        let me = *ncaps;
        *ncaps += 1;
        match ty {
            Ty::Manual(which) => match which {
                // `(\d+)/(\d+)`, `\d` as ASCII
                0 => {
                    let (a, b) = (*ncaps, *ncaps + 1);
                    *ncaps += 2;
                    let d = || rep(digit(), 1, None);
                    let n = Node::Cat(vec![cap(a, d()), Node::Char('/'), cap(b, d())]);
                    (cap(me, n), Plan::Manual { which: 0, cap: me, caps: vec![a, b] })
                }
                // `(?:none|some\((\w+)\)([!?]?))`
                _ => {
                    let (a, b) = (*ncaps, *ncaps + 1);
                    *ncaps += 2;
                    let w = set(&[('a', 'z')]);
                    let n = Node::Alt(vec![
                        lit("none"),
                        Node::Cat(vec![
                            lit("some("),
                            cap(a, rep(w, 1, None)),
                            Node::Char(')'),
                            cap(b, opt(set(&[('!', '!'), ('?', '?')]))),
                        ]),
                    ]);
                    (cap(me, n), Plan::Manual { which: 1, cap: me, caps: vec![a, b] })
                }
            },
            Ty::Def(d) => {
                let def = &self.defs[*d];
                let mut bodies = vec![];
                let mut nodes = vec![];
                for (i, body) in def.bodies.iter().enumerate() {
                    let Some(fmt) = &body.fmt else { continue };
                    let vcap = if def.is_enum {
                        *ncaps += 1;
                        *ncaps - 1
                    } else {
                        me
                    };
                    let (node, plans) = self.fmt_plan(fmt, ncaps);
                    nodes.push(if def.is_enum { cap(vcap, node) } else { node });
                    bodies.push((vcap, i, plans));
                }
                let n = if def.is_enum { Node::Alt(nodes) } else { nodes.pop().unwrap() };
                (cap(me, n), Plan::Def { def: *d, cap: me, bodies })
            }
            _ => {
                let node = match (o, ty) {
                    (Opt::None, _) => self.default_node(ty),
                    (Opt::Radix(r, p, _), Ty::Int(n)) => radix_node(n, *r, *p),
                    (Opt::Radix(..), _) => unreachable!(),
                    (Opt::Regex(n, _), _) => n.clone(),
                };
                (cap(me, node), Plan::Leaf { ty: ty.clone(), opt: o.clone(), cap: me })
            }
        }
    }

    pub fn fmt_plan(&self, fmt: &Fmt, ncaps: &mut usize) -> (Node, Vec<Plan>) {
        let mut nodes = vec![];
        let mut plans = vec![];
        for item in &fmt.items {
            match item {
                Item::Lit(s) => nodes.push(lit(s)),
                Item::Re(n, _) => nodes.push(n.clone()),
                Item::Ph(ph) => {
                    let (n, p) = self.ph_plan(&ph.ty, &ph.opt, ncaps);
                    nodes.push(n);
                    plans.push(p);
                }
            }
        }
        (Node::Cat(nodes), plans)
    }

    pub fn compile(&self, fmt: &Fmt) -> Model<'_> {
        let mut ncaps = 0;
        let (node, plans) = self.fmt_plan(fmt, &mut ncaps);
        let prog = Prog::new(&node, ncaps);
        Model { ctx: self, node, plans, prog }
    }
    /// model for `<type>::from_str`
    pub fn compile_ty(&self, ty: &Ty) -> Model<'_> {
        let mut ncaps = 0;
        let (node, plan) = self.ph_plan(ty, &Opt::None, &mut ncaps);
        let prog = Prog::new(&node, ncaps);
        Model { ctx: self, node, plans: vec![plan], prog }
    }
}

/// One conversion, in the order in which it has to happen: (kind, text)
pub type Event = String;

pub struct Model<'a> {
    pub ctx: &'a Ctx,
    pub node: Node,
    pub plans: Vec<Plan>,
    pub prog: Prog,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// one entry per placeholder
    Ok(Vec<String>),
    MatchFailed,
    ParsingFailed,
}

impl<'a> Model<'a> {
    pub fn run(&self, input: &str) -> Outcome {
        self.run_logged(input).0
    }
    /// Outcome and the events of the logging types
    pub fn run_logged(&self, input: &str) -> (Outcome, Vec<Event>) {
        let (o, log, _) = self.run_full(input);
        (o, log)
    }
    /// Outcome, events, and the causes of a parsing failure from the outside to the inside
    pub fn run_full(&self, input: &str) -> (Outcome, Vec<Event>, Chain) {
        let mut log = vec![];
        let Some(caps) = self.prog.match_full(input) else {
            return (Outcome::MatchFailed, log, vec![]);
        };
        let mut out = vec![];
        for p in &self.plans {
            match self.eval(p, input, &caps, &mut log) {
                Ok(s) => out.push(s),
                Err(c) => return (Outcome::ParsingFailed, log, c),
            }
        }
        (Outcome::Ok(out), log, vec![])
    }
    fn eval(&self, p: &Plan, input: &str, caps: &Caps, log: &mut Vec<Event>) -> Result<String, Chain> {
        match p {
            Plan::Leaf { ty, opt, cap } => {
                let (a, b) = caps[*cap].expect("model: leaf not captured");
                if let Ty::Log(n) = ty {
                    log.push(format!("L{n}({})", &input[a..b]));
                }
                convert(ty, opt, input, a, b)
            }
            Plan::Manual { which, caps: c, .. } => match which {
                0 => {
                    let t = |i: usize| caps[c[i]].map(|(a, b)| &input[a..b]).unwrap();
                    let x: u16 = t(0).parse().map_err(int_err)?;
                    let y: u16 = t(1).parse().map_err(int_err)?;
                    Ok(format!("mp:{x}/{y}"))
                }
                _ => Ok(match caps[c[0]] {
                    None => "mo:none".to_string(),
                    Some((a, b)) => format!(
                        "mo:{}{}",
                        &input[a..b],
                        caps[c[1]].map(|(a, b)| &input[a..b]).unwrap_or("-")
                    ),
                }),
            },
            Plan::Def { def, bodies, .. } => {
                let d = &self.ctx.defs[*def];
                for (vcap, bi, plans) in bodies {
                    if caps[*vcap].is_none() {
                        continue;
                    }
                    let body = &d.bodies[*bi];
                    let mut vals: Vec<Option<String>> = vec![None; body.fields.len()];
                    for (pi, plan) in plans.iter().enumerate() {
                        let (fi, field) = body
                            .fields
                            .iter()
                            .enumerate()
                            .find(|(_, f)| f.ph == Some(pi))
                            .expect("model: placeholder without field");
                        let outer = |mut c: Chain| {
                            c.insert(0, format!("FromScanf({})", d.name));
                            c
                        };
                        let v = self.eval(plan, input, caps, log).map_err(outer)?;
                        vals[fi] = Some(convert_field(&field.conv, &v, &field.name, log).map_err(outer)?);
                    }
                    let mut s = format!("{}", d.name);
                    if d.is_enum {
                        s += "::";
                        s += &body.name;
                    }
                    s.push('{');
                    for (f, v) in body.fields.iter().zip(vals) {
                        if v.is_none() && matches!(f.conv, Conv::DefaultExpr(_)) {
                            log.push(format!("default({})", f.default_shown));
                        }
                        s += &format!("{}={};", f.name, v.unwrap_or_else(|| f.default_shown.clone()));
                    }
                    s.push('}');
                    return Ok(s);
                }
                unreachable!("model: no variant captured")
            }
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
/// filter_map and try_from of the harness fail for this fraction of the values
pub fn rejects(s: &str) -> bool {
    hash_str(s) % 4 == 0
}

/// Causes of a failure, the outermost first, in the notation of `chain` in the harness
pub type Chain = Vec<String>;
fn int_err(e: std::num::ParseIntError) -> Chain {
    vec![format!("ParseIntError:{e}")]
}

pub fn convert_field(conv: &Conv, v: &str, name: &str, log: &mut Vec<Event>) -> Result<String, Chain> {
    let tag = match conv {
        Conv::None => return Ok(v.to_string()),
        Conv::Map => "map",
        Conv::FilterMap => "fmap",
        Conv::From => "from",
        Conv::TryFrom => "tryfrom",
        Conv::Default | Conv::DefaultExpr(_) => unreachable!(),
    };
    log.push(format!("{tag}({v})"));
    if matches!(conv, Conv::FilterMap | Conv::TryFrom) && rejects(v) {
        return Err(vec![match conv {
            Conv::FilterMap => format!("FilterMapNone({name})"),
            _ => format!("TryErr<{v}>"),
        }]);
    }
    Ok(format!("{tag}({v})"))
}

/// own arithmetic: value of `digits` in `radix`, None on overflow of u128
fn radix_value(digits: &str, radix: u32) -> Option<u128> {
    let mut v: u128 = 0;
    for c in digits.chars() {
        let d = c.to_digit(36).filter(|d| *d < radix)?;
        v = v.checked_mul(radix as u128)?.checked_add(d as u128)?;
    }
    if digits.is_empty() {
        return None;
    }
    Some(v)
}
fn in_int_range(int: &str, negative: bool, v: Option<u128>) -> Result<String, Chain> {
    let bits = int_bits(int);
    let (max, min) = if int_signed(int) {
        ((1u128 << (bits - 1)) - 1, 1u128 << (bits - 1))
    } else {
        (if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 }, 0)
    };
    let limit = if negative { min } else { max };
    let Some(v) = v.filter(|v| *v <= limit) else {
        let what = if negative { "small" } else { "large" };
        return Err(vec![format!("ParseIntError:number too {what} to fit in target type")]);
    };
    let sign = if negative && v != 0 { "-" } else { "" };
    Ok(format!("{int}:{sign}{v}"))
}
pub fn parse_int(int: &str, text: &str, radix: u32, prefix: Prefix) -> Result<String, Chain> {
    let invalid = || vec!["ParseIntError:invalid digit found in string".to_string()];
    let (neg, rest) = match text.chars().next() {
        Some('-') => (true, &text[1..]),
        Some('+') => (false, &text[1..]),
        _ => (false, text),
    };
    if text.is_empty() {
        return Err(vec!["ParseIntError:cannot parse integer from empty string".to_string()]);
    }
    if neg && !int_signed(int) {
        return Err(invalid());
    }
    let mut digits = rest;
    if prefix != Prefix::Never {
        let p = match radix {
            16 => "0x",
            8 => "0o",
            _ => "0b",
        };
        let has = rest.len() >= 2 && rest.is_char_boundary(2) && rest[..2].eq_ignore_ascii_case(p);
        if has {
            digits = &rest[2..];
        } else if prefix == Prefix::Forced {
            return Err(vec!["no prefix".to_string()]);
        }
    }
    if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
        return Err(invalid());
    }
    in_int_range(int, neg, radix_value(digits, radix))
}

/// what std says about a text it rejects (it may notice an overflow before an invalid digit)
fn std_int_err(int: &str, text: &str) -> Chain {
    macro_rules! list {
        ($($t:ident)*) => { match int { $(stringify!($t) => text.parse::<$t>().map(|_| ()),)* _ => unreachable!() } };
    }
    match list!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize) {
        Err(e) => int_err(e),
        Ok(()) => panic!("model: std accepts {text:?} as {int}"),
    }
}

/// name of a type with a conversion from text, in the notation of the causes
pub fn leaf_name(ty: &Ty) -> String {
    match ty {
        Ty::Int(n) => n.to_string(),
        Ty::NonZero(n) => nonzero_name(n),
        Ty::F32 => "f32".into(),
        Ty::F64 => "f64".into(),
        Ty::Full32 => "FullF32".into(),
        Ty::Full64 => "FullF64".into(),
        Ty::Hex => "HexNumber".into(),
        Ty::Char => "char".into(),
        Ty::Bool => "bool".into(),
        Ty::Ip4 => "Ipv4Addr".into(),
        Ty::Ip => "IpAddr".into(),
        Ty::Log(n) => format!("L{n}"),
        t => format!("{t:?}"),
    }
}

/// The errors of std's own conversions are asked from std, the texts of the others are written here.
pub fn convert(ty: &Ty, opt: &Opt, input: &str, a: usize, b: usize) -> Result<String, Chain> {
    let text = &input[a..b];
    fn p<T: std::str::FromStr>(ty: &Ty, kind: &str, s: &str) -> Result<T, Chain>
    where
        T::Err: std::fmt::Display,
    {
        s.parse().map_err(|e| vec![format!("FromStr({})", leaf_name(ty)), format!("{kind}:{e}")])
    }
    let outer = |mut c: Chain| {
        c.insert(0, format!("FromStr({})", leaf_name(ty)));
        c
    };
    match ty {
        Ty::Int(n) => match opt {
            Opt::Radix(r, pre, _) => parse_int(n, text, *r, *pre),
            _ => parse_int(n, text, 10, Prefix::Never).map_err(|_| outer(std_int_err(n, text))),
        },
        Ty::NonZero(n) => {
            let v = parse_int(n, text, 10, Prefix::Never).map_err(|_| outer(std_int_err(n, text)))?;
            if v.ends_with(":0") {
                return Err(outer(vec!["ParseIntError:number would be zero for non-zero type".into()]));
            }
            Ok(format!("nz{v}"))
        }
        Ty::F32 => p::<f32>(ty, "ParseFloatError", text).map(show_f32),
        Ty::F64 => p::<f64>(ty, "ParseFloatError", text).map(show_f64),
        Ty::Full32 => p::<f32>(ty, "ParseFloatError", text).map(|x| format!("Full{}", show_f32(x))),
        Ty::Full64 => p::<f64>(ty, "ParseFloatError", text).map(|x| format!("Full{}", show_f64(x))),
        Ty::Hex => {
            let d = text.strip_prefix("0x").or_else(|| text.strip_prefix("0X")).unwrap_or(text);
            parse_int("usize", d, 16, Prefix::Never)
                .map(|v| v.replace("usize:", "Hex:"))
                .map_err(outer)
        }
        Ty::Str => Ok(format!("str@{a}:{text}")),
        Ty::Cow => Ok(format!("cow@{a}:{text}")),
        Ty::String => Ok(format!("string:{text}")),
        Ty::Char => p::<char>(ty, "ParseCharError", text).map(|c| format!("char:{c}")),
        Ty::Bool => p::<bool>(ty, "ParseBoolError", text).map(|c| format!("bool:{c}")),
        Ty::Path => Ok(format!("path:{text}")),
        Ty::Ip4 => p::<std::net::Ipv4Addr>(ty, "AddrParseError", text).map(|c| format!("ip4:{c}")),
        Ty::Ip => p::<std::net::IpAddr>(ty, "AddrParseError", text).map(|c| format!("ip:{c}")),
        Ty::Tag(n) => Ok(format!("T{n}:{text}")),
        Ty::Log(n) => {
            if text.contains('X') {
                Err(outer(vec![format!("LogErr<{n}|{text}>")]))
            } else {
                Ok(format!("L{n}:{text}"))
            }
        }
        Ty::Manual(_) | Ty::Def(_) => unreachable!(),
    }
}
pub fn show_f32(x: f32) -> String {
    if x.is_nan() { "f32:nan".into() } else { format!("f32:{:08x}", x.to_bits()) }
}
pub fn show_f64(x: f64) -> String {
    if x.is_nan() { "f64:nan".into() } else { format!("f64:{:016x}", x.to_bits()) }
}

// ---------------------------------------------------------------- sampling of inputs

/// text of an in-range value
fn int_text(int: &str, radix: u32, prefix: Prefix, r: &mut crate::rng::Rng) -> String {
    let bits = int_bits(int);
    let signed = int_signed(int);
    let max: u128 = match (signed, bits) {
        (true, b) => (1u128 << (b - 1)) - 1,
        (false, 128) => u128::MAX,
        (false, b) => (1u128 << b) - 1,
    };
    let mut neg = signed && r.chance(1, 2);
    let limit = if neg { max + 1 } else { max };
    let v = match r.below(8) {
        0 => limit,
        1 => limit - 1,
        2 => r.below(2) as u128,
        3 => limit / 2 + r.below(2) as u128,
        4 => {
            let b = r.below(bits as usize) as u32;
            (1u128 << b).min(limit)
        }
        _ => {
            let b = r.below(bits as usize) as u32;
            (r.u128() >> (127 - b)).min(limit)
        }
    };
    if neg && v == 0 {
        neg = r.chance(1, 2);
    }
    let mut digits = vec![];
    let mut x = v;
    while x > 0 || digits.is_empty() {
        let d = char::from_digit((x % radix as u128) as u32, radix).unwrap();
        digits.push(if r.chance(1, 3) { d.to_ascii_uppercase() } else { d });
        x /= radix as u128;
    }
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if r.chance(1, 8) {
        s.push('+');
    }
    let p = match radix {
        16 => *r.pick(&["0x", "0X"]),
        8 => *r.pick(&["0o", "0O"]),
        _ => *r.pick(&["0b", "0B"]),
    };
    match prefix {
        Prefix::Never => {}
        Prefix::Forced => s += p,
        Prefix::Optional if r.chance(1, 2) => s += p,
        _ => {}
    }
    s.extend(digits.iter().rev());
    s
}

impl Model<'_> {
    fn leaf(&self, c: usize) -> Option<(&Ty, &Opt)> {
        fn find(plans: &[Plan], c: usize) -> Option<(&Ty, &Opt)> {
            plans.iter().find_map(|p| match p {
                Plan::Leaf { ty, opt, cap } if *cap == c => Some((ty, opt)),
                Plan::Def { bodies, .. } => bodies.iter().find_map(|(_, _, p)| find(p, c)),
                _ => None,
            })
        }
        find(&self.plans, c)
    }
    /// a string that the format accepts, mostly with values that can be converted
    pub fn sample(&self, r: &mut crate::rng::Rng) -> String {
        let long = *r.pick(&[1, 3, 3, 6, 20]);
        let valid = r.chance(4, 5);
        let mut s = String::new();
        self.walk(&self.node, r, long, valid, &mut s);
        s
    }
    fn walk(&self, n: &Node, r: &mut crate::rng::Rng, long: u32, valid: bool, s: &mut String) {
        match n {
            Node::Cat(v) => v.iter().for_each(|n| self.walk(n, r, long, valid, s)),
            Node::Alt(v) => {
                let n = r.pick(v);
                self.walk(n, r, long, valid, s)
            }
            Node::Cap(c, inner) => {
                if valid && r.chance(9, 10) {
                    match self.leaf(*c) {
                        Some((Ty::Int(n), Opt::None)) => return *s += &int_text(n, 10, Prefix::Never, r),
                        Some((Ty::Int(n), Opt::Radix(radix, p, _))) => return *s += &int_text(n, *radix, *p, r),
                        Some((Ty::NonZero(n), Opt::None)) => {
                            let t = int_text(n, 10, Prefix::Never, r);
                            if t.trim_start_matches(['-', '+']) != "0" {
                                return *s += &t;
                            }
                            return *s += "1";
                        }
                        Some((Ty::Ip4, Opt::Regex(..))) => {
                            let mut t = String::new();
                            inner.sample(r, long, &mut t);
                            let v4 = format!("{}.{}.{}.{}", r.below(256), r.below(10), r.below(300), r.below(256));
                            if r.chance(1, 2) {
                                t = v4;
                            }
                            return *s += &t;
                        }
                        Some((Ty::Log(_), Opt::None)) => {
                            for _ in 0..r.range(1, 4) {
                                s.push(*r.pick(&['a', 'b', 'Z', '0', 'q', 'Y']));
                            }
                            if r.chance(1, 12) {
                                s.push('X');
                            }
                            return;
                        }
                        _ => {}
                    }
                }
                self.walk(inner, r, long, valid, s)
            }
            n => n.sample(r, long, s),
        }
    }
    /// an input to try, and whether it was derived from an accepted one
    pub fn input(&self, r: &mut crate::rng::Rng) -> String {
        match r.below(12) {
            0..=6 => self.sample(r),
            7..=10 => {
                let mut s = self.sample(r);
                for _ in 0..r.range(1, 3) {
                    s = crate::gen::mutate(&s, r);
                }
                s
            }
            _ => {
                let mut s = String::new();
                for _ in 0..r.below(12) {
                    s.push(*r.pick(ANY_CHARS));
                }
                s
            }
        }
    }
}
