#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::sscanf;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P08.rs"));
}
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::marker::PhantomData;

/// shows a value by its `Debug` text
macro_rules! show_debug {
    ($($(<$($g:tt),*>)? $t:ty),* $(,)?) => { $(
        impl$(<$($g: Debug),*>)? Show for $t { fn show(&self) -> String { format!("{self:?}") } }
    )* };
}

// ---- generics
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(format = r"g<{field:/[a-z0-9\-]+/}>")]
struct Generic<T>
where
    T: std::str::FromStr + 'static,
    <T as std::str::FromStr>::Err: std::error::Error + 'static,
{
    field: T,
}
impl<T: Debug + std::str::FromStr + 'static> Show for Generic<T>
where
    <T as std::str::FromStr>::Err: std::error::Error + 'static,
{
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(format = "{n}~{}")]
struct Defaulted<T: Default, const N: usize, U> {
    #[sscanf(default)]
    a: Vec<T>,
    n: u16,
    #[sscanf(default = [7; N])]
    b: [u8; N],
    s: String,
    #[sscanf(default)]
    p: PhantomData<U>,
}
impl<T: Default + Debug, const N: usize, U> Show for Defaulted<T, N, U> {
    fn show(&self) -> String {
        format!("{:?} {} {:?} {}", self.a, self.n, self.b, self.s)
    }
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{}:{}")]
struct Mapping<T: From<u8> + Copy>(#[sscanf(map = |x: u8| T::from(x))] T, #[sscanf(from = u8)] T)
where
    T: Debug;
show_debug!(Mapping<u32>, Mapping<i64>, Mapping<f64>);

// ---- lifetimes
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(format = "{a}/{b}/{c}")]
struct Lifes<'x, 'y, 'z: 'y, T: ?Sized + 'z> {
    b: &'y str,
    a: Cow<'x, str>,
    #[sscanf(map = |s: &str| s.len())]
    c: usize,
    #[sscanf(default)]
    d: Option<&'z T>,
}
impl<T: ?Sized> Show for Lifes<'_, '_, '_, T> {
    fn show(&self) -> String {
        format!("{} {} {} {}", self.a.show(), self.b.show(), self.c, self.d.is_none())
    }
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("[{}]")]
struct Static(&'static str);
show_debug!(Static);
fn leak(i: &str) -> &'static str {
    Box::leak(i.to_string().into_boxed_str())
}

// ---- conversions
#[derive(Debug, PartialEq)]
struct Even(u32);
impl std::convert::TryFrom<u32> for Even {
    type Error = TryErr;
    fn try_from(x: u32) -> Result<Self, TryErr> {
        if x % 2 == 0 {
            Ok(Even(x))
        } else {
            Err(TryErr(x.to_string()))
        }
    }
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{vec} {list} {hex:#x} {even:r7} {pair:/[a-c]+/} {opt}")]
struct Conversions {
    #[sscanf(default = { let mut m = BTreeMap::new(); m.insert("k", 1.5f32); m })]
    map: BTreeMap<&'static str, f32>,
    #[sscanf(try_from = u32)]
    even: Even,
    #[sscanf(filter_map = |hex: u16| hex.checked_sub(16).filter(|x| x % 3 != 0))]
    hex: u16,
    #[sscanf(from = String)]
    vec: Vec<u8>,
    #[sscanf(map = |x: &str| x.split(',').map(|s| s.to_string()).collect())]
    list: Vec<String>,
    #[sscanf(map = |s: String| (s.clone(), s))]
    pair: (String, String),
    #[sscanf(map = |(b): bool| Some(b))]
    opt: Option<bool>,
    #[sscanf(default)]
    none: Option<Box<Conversions>>,
}
show_debug!(Conversions);
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(transparent)]
struct MapTransparent(#[sscanf(filter_map = |x: u8| if x > 9 { Some(x - 10) } else { None })] u8);
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(transparent)]
struct FromTransparent {
    #[sscanf(from = MapTransparent)]
    inner: Wrapped,
}
#[derive(Debug)]
struct Wrapped(u8);
impl From<MapTransparent> for Wrapped {
    fn from(x: MapTransparent) -> Self {
        Wrapped(x.0 ^ 1)
    }
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(transparent)]
struct Twice {
    r#struct: FromTransparent,
}
show_debug!(MapTransparent, FromTransparent, Twice);

// ---- names
mod outer {
    pub mod inner {
        #[derive(Debug, sscanf::FromScanf)]
        #[sscanf("{r#type}|{fn}|{r}|{_x}|{5}|{größe}")]
        pub struct r#Names {
            pub(crate) r#type: u8,
            pub(super) r#fn: i8,
            pub r: bool,
            _x: char,
            pub größe: u16,
            pub r#const: u8,
        }
        impl harness::Show for Names {
            fn show(&self) -> String {
                format!("{self:?}")
            }
        }
    }
    #[derive(Debug, sscanf::FromScanf)]
    #[sscanf("{1}{}{0}{}")]
    pub struct Mixed(pub self::inner::Names, pub super::Unit, pub crate::Sep, pub super::Unit);
    impl harness::Show for Mixed {
        fn show(&self) -> String {
            format!("{self:?}")
        }
    }
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("(u)")]
struct Unit;
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(";{{}};")]
struct Sep {}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("é\u{3000}\x7b{\x7d\u{7D}")]
struct Paren();
show_debug!(Unit, Sep, Paren);

// many fields in reverse order, with defaults in between
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{11}a{9}b{7}c{5}d{3}e{1}f{}g{}h{}i{}")]
struct Many(
    u8,
    u8,
    #[sscanf(default = 100)] u8,
    u8,
    u8,
    u8,
    #[sscanf(default = 101)] u8,
    u8,
    u8,
    u8,
    u8,
    u8,
    #[sscanf(default = 102)] u8,
);
show_debug!(Many);

// attributes next to each other, other attributes in between
/// docs
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, sscanf::FromScanf)]
#[allow(dead_code)]
#[sscanf(format_unescaped = r"(?:a|b){x}\d{{2}}")]
#[doc(alias = "x")]
#[repr(C)]
pub(crate) struct Attributes {
    /// docs
    #[allow(dead_code)]
    #[sscanf(default)]
    #[doc(hidden)]
    pub y: u8,
    #[cfg(all())]
    x: i8,
}
show_debug!(Attributes);

// a field that may not exist
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{a}{b}")]
struct Recursive {
    a: u8,
    #[sscanf(map = |s: &str| sscanf!(s, ".{Recursive}").ok().map(Box::new))]
    b: Option<Box<Recursive>>,
}
show_debug!(Recursive);

macro_rules! make {
    ($(#[$m:meta])* $name:ident { $($f:ident : $t:ty = $d:expr),* } $fmt:literal $with:ident as $from:ty) => {
        $(#[$m])*
        #[derive(Debug, sscanf::FromScanf)]
        #[sscanf(format = $fmt)]
        struct $name { $(#[sscanf(default = $d)] $f: $t,)* #[sscanf(from = $from)] $with: u64 }
    };
}
make! { /** docs */ Made { a: u8 = 3, b: Vec<i8> = vec![-1, 2] } "<{last}>" last as u32 }
show_debug!(Made);

// what a closure may contain
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{l}+{r}")]
struct Both {
    l: u8,
    r: u8,
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{res},{ret},{mutable},{pat},{kind},{bytes},{assoc}")]
struct Closures<'a> {
    #[sscanf(default = Self::YES + 1)]
    def: i32,
    #[sscanf(default = (|| { let x: u8 = "x7".strip_prefix('x')?.parse().ok()?; Some(x) })())]
    def2: Option<u8>,
    #[sscanf(map = |t: String| { let n: u8 = t.parse()?; Ok(n.wrapping_mul(2)) })]
    res: Result<u8, std::num::ParseIntError>,
    #[sscanf(filter_map = |t: &str| { if t.starts_with('x') { return None; } let c = t.chars().nth(1)?; Some(c) })]
    ret: char,
    #[sscanf(map = |mut x: u16| { x = x.wrapping_add(1); x })]
    mutable: u16,
    #[sscanf(map = |Both { l, r: other }: Both| (other, l))]
    pat: (u8, u8),
    #[sscanf(map = |t: &str| 'outer: loop { if t.len() > 3 { break 'outer "long"; } else { return "short"; } })]
    kind: &'static str,
    #[sscanf(map = |t: &'a str| t.as_bytes())]
    bytes: &'a [u8],
    #[sscanf(map = |x: bool| match x { true => Self::YES, false => Self::no() })]
    assoc: i32,
}
impl Closures<'_> {
    const YES: i32 = 40;
    fn no() -> i32 {
        -1
    }
}
impl Show for Closures<'_> {
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
#[derive(Debug, sscanf::FromScanf)]
enum ClosureEnum {
    #[sscanf("r{}")]
    Res(#[sscanf(map = |t: &str| { let n: i8 = t.parse()?; Ok(n) })] Result<i8, std::num::ParseIntError>),
    #[sscanf("o{o}")]
    Opt {
        #[sscanf(map = |t: &str| { if t == "q" { return None } Some(t.len()) })]
        o: Option<usize>,
    },
}
show_debug!(ClosureEnum);

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn one(s: String) -> Option<Vec<String>> {
    Some(vec![s])
}

fn cases() -> Vec<Case> {
    let mut v = vec![
        case!(["g<12>", "g<-5>", "g<abc>", "g<300>"], |i| sscanf!(i, "{Generic<u8>}"), |w| by_regex(r"g<([a-z0-9\-]+)>", w, |g| one(format!("Generic {{ field: {} }}", num::<u8>(g[1])?)))),
        case!(["g<12>", "g<-5>"], |i| <Generic<i32> as sscanf::FromScanf>::from_str(i), |w| by_regex(r"g<([a-z0-9\-]+)>", w, |g| one(format!("Generic {{ field: {} }}", num::<i32>(g[1])?)))),
        case!(["g<12>g<true>", "g<true>g<5>", "g<12>g<false>"], |i| sscanf!(i, "{}{}", Generic<String>, Generic<bool>), |w| by_regex(r"g<([a-z0-9\-]+)>g<([a-z0-9\-]+)>", w, |g| Some(vec![format!("Generic {{ field: {:?} }}", g[1]), format!("Generic {{ field: {} }}", num::<bool>(g[2])?)]))),
        case!(["12~ab", "65536~x"], |i| sscanf!(i, "{}", Defaulted<u8, 3, Static>), |w| by_regex(r"(\+?\d{1,5})~(.+?)", w, |g| one(format!("[] {} [7, 7, 7] {}", num::<u16>(g[1])?, g[2])))),
        case!(["12~ab!0~c"], |i| sscanf!(i, "{Defaulted<String, 0, ()>}!{Defaulted<(), 1, [u8; 2]>}"), |w| by_regex(r"(\+?\d{1,5})~(.+?)!(\+?\d{1,5})~(.+?)", w, |g| Some(vec![format!("[] {} [] {}", num::<u16>(g[1])?, g[2]), format!("[] {} [7] {}", num::<u16>(g[3])?, g[4])]))),
        case!(["1:2", "255:256", "256:1"], |i| sscanf!(i, "{Mapping<u32>}"), |w| by_regex(r"(\+?\d{1,3}):(\+?\d{1,3})", w, |g| one(format!("Mapping({}, {})", num::<u8>(g[1])?, num::<u8>(g[2])?)))),
        case!(["1:2,3:4"], |i| sscanf!(i, "{Mapping<i64>},{Mapping<f64>}"), |w| by_regex(r"(\+?\d{1,3}):(\+?\d{1,3}),(\+?\d{1,3}):(\+?\d{1,3})", w, |g| Some(vec![format!("Mapping({}, {})", num::<u8>(g[1])?, num::<u8>(g[2])?), format!("Mapping({:?}, {:?})", num::<u8>(g[3])? as f64, num::<u8>(g[4])? as f64)]))),
        case!(["ab/cde/fghi", "é/🦀/ü", "a/b/c/d"], |i| sscanf!(i, "{Lifes<str>}"), |w| by_regex(r"(.+?)/(.+?)/(.+?)", w, |g| one(format!("cow@0:{0} str@{1}:{2} {3} true", g[1], g[1].len() + 1, g[2], g[3].len())))),
        case!(["[ab]", "[]", "[é]"], |i| sscanf!(leak(i), "{Static}"), |w| by_regex(r"\[(.+?)\]", w, |g| one(format!("Static({:?})", g[1])))),
        case!(["ab c,d 0x23 22 abc true", "ü , 0X13 6 a false", "a b 0x10 1 c true", "a b 0x22 2 c true", "a b 23 2 c true", "a b 0x2 2 c true"], |i| sscanf!(i, "{Conversions}"),
            |w| by_regex(r"(.+?) (.+?) (\+?0[xX][0-9a-fA-F]{1,4}) (\+?[0-6]{1,12}) ([a-c]+) (true|false)", w, |g| {
                let hex = u16::from_str_radix(&g[3].trim_start_matches('+')[2..], 16).ok()?.checked_sub(16).filter(|x| x % 3 != 0)?;
                let even = u32::from_str_radix(g[4].trim_start_matches('+'), 7).ok().filter(|x| x % 2 == 0)?;
                let list: Vec<&str> = g[2].split(',').collect();
                one(format!("Conversions {{ map: {{\"k\": 1.5}}, even: Even({even}), hex: {hex}, vec: {:?}, list: {list:?}, pair: ({:?}, {:?}), opt: Some({}), none: None }}", g[1].as_bytes(), g[5], g[5], g[6]))
            })),
        case!(["12", "9", "255", "256", "+10"], |i| sscanf!(i, "{MapTransparent}"), |w| by_regex(r"\+?\d{1,3}", w, |g| one(format!("MapTransparent({})", num::<u8>(g[0])?.checked_sub(10)?)))),
        case!(["12", "9", "255", "256", "+10"], |i| <MapTransparent as sscanf::FromScanf>::from_str(i), |w| by_regex(r"\+?\d{1,3}", w, |g| one(format!("MapTransparent({})", num::<u8>(g[0])?.checked_sub(10)?)))),
        case!(["12", "9", "255", "256"], |i| sscanf!(i, "{FromTransparent}"), |w| by_regex(r"\+?\d{1,3}", w, |g| one(format!("FromTransparent {{ inner: Wrapped({}) }}", num::<u8>(g[0])?.checked_sub(10)? ^ 1)))),
        case!(["12,13", "9,9", "255,256"], |i| sscanf!(i, "{Twice},{0}", Twice), |w| by_regex(r"(\+?\d{1,3}),(\+?\d{1,3})", w, |g| {
            let f = |s| Some(format!("Twice {{ struct: FromTransparent {{ inner: Wrapped({}) }} }}", num::<u8>(s)?.checked_sub(10)? ^ 1));
            Some(vec![f(g[1])?, f(g[2])?])
        })),
        case!(["1|-2|true|x|7|65535", "1|2|false|é|256|3"], |i| sscanf!(i, "{outer::inner::Names}"), |w| by_regex(r"(\+?\d{1,3})\|([-+]?\d{1,3})\|(true|false)\|(.)\|(\+?\d{1,3})\|(\+?\d{1,5})", w, |g| {
            one(format!("Names {{ type: {}, fn: {}, r: {}, _x: {:?}, größe: {}, const: {} }}", num::<u8>(g[1])?, num::<i8>(g[2])?, g[3], g[4].chars().next()?, num::<u16>(g[6])?, num::<u8>(g[5])?))
        })),
        case!(["(u);{};1|-2|true|x|7|65535(u)"], |i| sscanf!(i, "{}", outer::Mixed), |w| by_regex(r"\(u\);\{\};(\+?\d{1,3})\|([-+]?\d{1,3})\|(true|false)\|(.)\|(\+?\d{1,3})\|(\+?\d{1,5})\(u\)", w, |g| {
            one(format!("Mixed(Names {{ type: {}, fn: {}, r: {}, _x: {:?}, größe: {}, const: {} }}, Unit, Sep, Unit)", num::<u8>(g[1])?, num::<i8>(g[2])?, g[3], g[4].chars().next()?, num::<u16>(g[6])?, num::<u8>(g[5])?))
        })),
        case!(["(u)", "u"], |i| <Unit as sscanf::FromScanf>::from_str(i), |w| if w == "(u)" { ok(&["Unit"]) } else { Obs::MatchFailed }),
        case!([";{};", ";{{}};"], |i| sscanf!(i, "{}", Sep), |w| if w == ";{};" { ok(&["Sep"]) } else { Obs::MatchFailed }),
        case!(["é\u{3000}{}", "é {}", "é\u{3000}{{}}"], |i| sscanf!(i, "{}", Paren), |w| if w == "é\u{3000}{}" { ok(&["Paren"]) } else { Obs::MatchFailed }),
        case!(["1a2b3c4d5e6f7g8h9i10", "255a255b255c255d255e255f255g255h255i256"], |i| sscanf!(i, "{Many}"), |w| by_regex(r"(\+?\d{1,3})a(\+?\d{1,3})b(\+?\d{1,3})c(\+?\d{1,3})d(\+?\d{1,3})e(\+?\d{1,3})f(\+?\d{1,3})g(\+?\d{1,3})h(\+?\d{1,3})i(\+?\d{1,3})", w, |g| {
            let n: Option<Vec<u8>> = g[1..].iter().map(|s| num(s)).collect();
            let n = n?;
            let v = [n[6], n[5], 100, n[4], n[7], n[3], 101, n[2], n[8], n[1], n[9], n[0], 102];
            one(format!("Many({})", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")))
        })),
        case!(["a-512", "b+1234", "a99", "a12"], |i| sscanf!(i, "{Attributes}"), |w| by_regex(r"[ab]([-+]?\d{1,3})\d{2}", w, |g| one(format!("Attributes {{ y: 0, x: {} }}", num::<i8>(g[1])?)))),
        case!(["1.2.3.x", "1.2.3.256x", "12", "1.2"], |i| sscanf!(i, "{Recursive}"), |w| recursive(w).map_or_else(|o| o, |s| ok(&[&s]))),
        case!(["<5>", "<4294967295>", "<4294967296>"], |i| sscanf!(i, "{Made}"), |w| by_regex(r"<(\+?\d{1,10})>", w, |g| one(format!("Made {{ a: 3, b: [-1, 2], last: {} }}", num::<u32>(g[1])?)))),
        case!(["(u)(u)", "(u)(u)(u)"], |i| sscanf!(i, "{Unit}{Unit}"), |w| if w == "(u)(u)" { ok(&["Unit", "Unit"]) } else { Obs::MatchFailed }),
        case!(["5,ab,9,1+2,abcd,é,true", "x,xb,65535,3+4,abc,zz,false", "x,a,0,1+1,a,b,true", "300,éü,65535,255+0,....,x,false", ",ab,1,1+1,a,b,true", "1,ab,1,256+1,a,b,true"],
            |i| sscanf!(i, "{Closures}"),
            |w| by_regex(r"(.+?),(.+?),(\+?\d{1,5}),(\+?\d{1,3})\+(\+?\d{1,3}),(.+?),(.+?),(true|false)", w, |g| {
                let res = g[1].parse::<u8>().map(|n| n.wrapping_mul(2));
                let mutable = num::<u16>(g[3])?.wrapping_add(1);
                let (l, r) = (num::<u8>(g[4])?, num::<u8>(g[5])?);
                let ret = if g[2].starts_with('x') { None } else { g[2].chars().nth(1) }?;
                let kind = if g[6].len() > 3 { "long" } else { "short" };
                let assoc = if g[8] == "true" { 40 } else { -1 };
                one(format!("Closures {{ def: 41, def2: Some(7), res: {res:?}, ret: {ret:?}, mutable: {mutable}, pat: ({r}, {l}), kind: {kind:?}, bytes: {:?}, assoc: {assoc} }}", g[7].as_bytes()))
            })),
        case!(["r5", "r300", "rx", "oq", "oabc", "r"], |i| sscanf!(i, "{}", ClosureEnum), |w| by_regex(r"([ro])(.+?)", w, |g| {
            one(match g[1] {
                "r" => format!("Res({:?})", g[2].parse::<i8>()),
                _ => format!("Opt {{ o: {:?} }}", if g[2] == "q" { None } else { Some(g[2].len()) }),
            })
        })),
        case!(["r5;oq", "rx;oab;c"], |i| sscanf!(i, "{ClosureEnum};{ClosureEnum}"), |w| by_regex(r"(r|o)(.+?);(r|o)(.+?)", w, |g| {
            let f = |k: &str, t: &str| match k {
                "r" => format!("Res({:?})", t.parse::<i8>()),
                _ => format!("Opt {{ o: {:?} }}", if t == "q" { None } else { Some(t.len()) }),
            };
            Some(vec![f(g[1], g[2]), f(g[3], g[4])])
        })),
    ];
    v
}
fn recursive(s: &str) -> Result<String, Obs> {
    // the number takes as many digits as it can, as long as something is left
    let Some(g) = groups(r"(\+?\d{1,3})(.+?)", s) else { return Err(Obs::MatchFailed) };
    let Ok(a) = g[1].unwrap().parse::<u8>() else { return Err(Obs::ParsingFailed(String::new())) };
    let b = match g[2].unwrap().strip_prefix('.').map(recursive) {
        Some(Ok(s)) => format!("Some({s})"),
        _ => "None".into(),
    };
    Ok(format!("Recursive {{ a: {a}, b: {b} }}"))
}

fn main() {
    quiet_panics();
    watchdog("P08", 60);
    let mut rep = Report::new("P08");
    let plan = plan::plan("P08", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());
    run_cases(&mut rep, "structs", &cases());
    rep.finish();
}
