//! The length of the input means nothing: the same calls with short and very long inputs.
use crate::{seed, thorough, Report, Rng};
use sscanf::{sscanf, sscanf_unescaped, Error, FromScanf};
use std::borrow::Cow;
use std::path::PathBuf;

#[derive(FromScanf)]
#[sscanf("{n}:{w}")]
struct Pair<'a> {
    n: u16,
    w: &'a str,
}
#[derive(FromScanf)]
enum Either {
    #[sscanf("n={}")]
    N(f64),
    #[sscanf("w={}")]
    W(String),
    #[sscanf("p={:/[^,]*/},{:/.*/}")]
    P(String, String),
}
#[derive(FromScanf)]
#[sscanf(transparent)]
struct Thin(String);
impl std::str::FromStr for Rest {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Rest(s.to_string()))
    }
}
struct Rest(String);
impl sscanf::RegexRepresentation for Rest {
    const REGEX: &'static str = r"(?s).*";
}

/// what came out: the pieces, or which error
type Out = Result<Vec<String>, &'static str>;
fn out<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Vec<String>) -> Out {
    match r {
        Ok(v) => Ok(f(v)),
        Err(Error::MatchFailed) => Err("match"),
        Err(Error::ParsingFailed(_)) => Err("parse"),
    }
}
struct Call {
    name: &'static str,
    /// before and after the long part
    around: (&'static str, &'static str),
    /// what is expected, given the long part
    want: fn(&str) -> Out,
    f: fn(&str) -> Out,
    /// whether the long part may have line breaks / has to be made of digits
    lines: bool,
    digits: bool,
}
fn s(x: &str) -> String {
    x.to_string()
}
/// a part of the input itself, or a sign that it is a copy
fn inside(input: &str, part: &str) -> String {
    if input.as_bytes().as_ptr_range().contains(&part.as_ptr()) { s(part) } else { format!("copy of {part}") }
}
fn calls() -> Vec<Call> {
    macro_rules! c {
        ($name:literal, $b:literal, $a:literal, |$l:ident| $want:expr, |$i:ident| $f:expr) => { c!($name, $b, $a, |$l| $want, |$i| $f, false, false) };
        ($name:literal, $b:literal, $a:literal, |$l:ident| $want:expr, |$i:ident| $f:expr, $lines:literal, $digits:literal) => {
            Call { name: $name, around: ($b, $a), want: |$l| $want, f: |$i| $f, lines: $lines, digits: $digits }
        };
    }
    vec![
        c!("str", "", "", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "{}", str), |x| vec![inside(i, x)])),
        c!("String", "", "", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "{}", String), |x| vec![x])),
        c!("PathBuf", "", "", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "{}", PathBuf), |x| vec![s(x.to_str().unwrap())])),
        c!("Cow", "", "", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "{}", Cow<str>), |x| vec![match x {
            Cow::Borrowed(x) => inside(i, x),
            Cow::Owned(x) => format!("owned {x}"),
        }])),
        c!("a number, then text", "7-", "", |l| Ok(vec![s("7"), s(l)]), |i| out(sscanf!(i, "{}-{}", u8, str), |x| vec![x.0.to_string(), inside(i, x.1)])),
        c!("text, then a number", "", "-7", |l| Ok(vec![s(l), s("7")]), |i| out(sscanf!(i, "{}-{}", str, u8), |x| vec![inside(i, x.0), x.1.to_string()])),
        c!("text twice", "", "=x", |l| Ok(vec![s(l), s("x")]), |i| out(sscanf!(i, "{}={}", str, String), |x| vec![inside(i, x.0), x.1])),
        c!("named", "65535:", "", |l| Ok(vec![s("65535"), s(l)]), |i| out(sscanf!(i, "{Pair}"), |x| vec![x.n.to_string(), inside(i, x.w)])),
        c!("struct", "9:", "", |l| Ok(vec![s("9"), s(l)]), |i| out(Pair::from_str(i), |x| vec![x.n.to_string(), inside(i, x.w)])),
        c!("struct, too large number", "65536:", "", |_l| Err("parse"), |i| out(Pair::from_str(i), |x| vec![x.n.to_string(), s(x.w)])),
        c!("number too large", "256-", "", |_l| Err("parse"), |i| out(sscanf!(i, "{}-{}", u8, str), |x| vec![x.0.to_string(), s(x.1)])),
        c!("enum, text", "w=", "", |l| Ok(vec![s("W"), s(l)]), |i| out(sscanf!(i, "{}", Either), either)),
        c!("enum directly, text", "w=", "", |l| Ok(vec![s("W"), s(l)]), |i| out(Either::from_str(i), either)),
        c!("enum, own regex", "p=", ",", |l| Ok(vec![s("P"), s(l), s("")]), |i| out(sscanf!(i, "{}", Either), either)),
        c!("enum, own regex at the end", "p=,", "", |l| Ok(vec![s("P"), s(""), s(l)]), |i| out(Either::from_str(i), either)),
        c!("transparent", "<", ">", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "<{}>", Thin), |x| vec![x.0])),
        c!("transparent directly", "", "", |l| Ok(vec![s(l)]), |i| out(Thin::from_str(i), |x| vec![x.0])),
        c!("own type, any text", "", "", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "{}", Rest), |x| vec![x.0]), true, false),
        c!("own type directly", "", "", |l| Ok(vec![s(l)]), |i| out(<Rest as FromScanf>::from_str(i), |x| vec![x.0]), true, false),
        c!("own regex", "(", ")", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "({:/[^)]*/})", str), |x| vec![inside(i, x)]), true, false),
        c!("own regex, counted", "", "", |l| Ok(vec![s(l)]), |i| out(sscanf!(i, "{:/[^)]{3,}/}", String), |x| vec![x]), true, false),
        c!("unescaped", "", ";1;2", |l| Ok(vec![s(l)]), |i| out(sscanf_unescaped!(i, "{}(?:;\\d)+", str), |x| vec![inside(i, x)])),
        c!("unescaped, skipped", "[", "]5", |_l| Ok(vec![s("5")]), |i| out(sscanf_unescaped!(i, "\\[[^\\]]*\\]{}", u8), |x| vec![x.to_string()]), true, false),
        c!("no placeholder", "", "", |_l| Err("match"), |i| out(sscanf!(i, "abc"), |()| vec![])),
        c!("text not at the end", "", "\n", |_l| Err("match"), |i| out(sscanf!(i, "{}", str), |x| vec![s(x)])),
        c!("text not at the start", "\n", "", |_l| Err("match"), |i| out(sscanf!(i, "{}", String), |x| vec![x])),
        c!("a line break", "7-", "\n", |_l| Err("match"), |i| out(sscanf!(i, "{}-{}", u8, str), |x| vec![s(x.1)])),
        c!("no number", "x", "", |_l| Err("match"), |i| out(sscanf!(i, "{}", u64), |x| vec![x.to_string()])),
        c!("long number", "", "", |_l| Err("match"), |i| out(sscanf!(i, "{}", u8), |x| vec![x.to_string()]), false, true),
        c!("f64", "", ".5e-3", |l| Ok(vec![format!("{:?}", format!("{l}.5e-3").parse::<f64>().unwrap())]), |i| out(sscanf!(i, "{}", f64), |x| vec![format!("{x:?}")]), false, true),
        c!("f64, after the point", "-0.", "", |l| Ok(vec![format!("{:?}", format!("-0.{l}").parse::<f64>().unwrap())]), |i| out(sscanf!(i, "{}", f64), |x| vec![format!("{x:?}")]), false, true),
        c!("f32, exponent", "1e", "", |l| Ok(vec![format!("{:?}", format!("1e{l}").parse::<f32>().unwrap())]), |i| out(sscanf!(i, "{}", f32), |x| vec![format!("{x:?}")]), false, true),
        c!("enum, number", "n=", "", |l| Ok(vec![s("N"), format!("{:?}", l.parse::<f64>().unwrap())]), |i| out(Either::from_str(i), either), false, true),
        c!("digits, then a number", "", ",7", |l| Ok(vec![s(l), s("7")]), |i| out(sscanf!(i, "{},{:r8}", str, u8), |x| vec![inside(i, x.0), x.1.to_string()]), false, true),
    ]
}
fn either(x: Either) -> Vec<String> {
    match x {
        Either::N(n) => vec![s("N"), format!("{n:?}")],
        Either::W(w) => vec![s("W"), w],
        Either::P(a, b) => vec![s("P"), a, b],
    }
}
/// The calls with inputs of all sizes, around the usual limits in particular
pub fn long_inputs(rep: &mut Report) {
    let mut r = Rng::new(seed(), "long-inputs");
    let mut sizes: Vec<usize> = vec![];
    for p in 6..=20 {
        let n = 1usize << p;
        sizes.extend([n - 1, n, n + 1, r.range(n + 2, 2 * n - 2)]);
    }
    for p in [100, 1000, 10_000, 100_000, 1_000_000] {
        sizes.extend([p - 1, p, p + 1]);
    }
    sizes.push(if thorough() { 40_000_000 } else { 5_000_000 });
    let calls = calls();
    crate::parallel(rep, calls.len(), |k, rep| {
        let c = &calls[k];
        let mut r = Rng::new(seed(), &format!("long-inputs-{}", c.name));
        for n in &sizes {
            if !thorough() && *n > 70_000 && *n < 4_000_000 && !r.chance(1, 4) && *n != 100_001 && *n != (1 << 20) + 1 {
                continue;
            }
            let unit = if c.digits {
                *r.pick(&["0", "7", "10", "99", "123"])
            } else if c.lines {
                *r.pick(&["a", "a\n", "é", "\r\n", "x y", "7"])
            } else {
                *r.pick(&["a", "é", "🦀", "7", "a\r", "x y", "\0"])
            };
            let around = c.around.0.len() + c.around.1.len();
            // the whole input has n bytes, as far as possible
            let mut l = unit.repeat(n.saturating_sub(around) / unit.len());
            while l.len() + around < *n {
                l.push(if c.digits { '1' } else { 'b' });
            }
            let input = format!("{}{l}{}", c.around.0, c.around.1);
            let (got, want) = (std::panic::catch_unwind(|| (c.f)(&input)), (c.want)(&l));
            rep.eval(0x10_0000_0000 + (k * 100_000_000 + n) as u64, want.is_ok());
            rep.count("inputs of a given length");
            let got = match got {
                Ok(g) if g == want => continue,
                Ok(g) => format!("{:?}", g.map(|v| v.iter().map(|x| (x.len(), crate::monlib::report::clip(x, 20))).collect::<Vec<_>>())),
                Err(_) => "panic".into(),
            };
            rep.violation(
                format!("long|{}", c.name),
                format!("{}: an input of {n} bytes made of {unit:?} between {:?} and {:?} gives {got}, not {:?}", c.name, c.around.0, c.around.1, want.map(|v| v.iter().map(|x| (x.len(), crate::monlib::report::clip(x, 20))).collect::<Vec<_>>())),
            );
            break;
        }
    });
}
