#![allow(deprecated, unused, non_snake_case, non_camel_case_types, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::{errors::*, sscanf, sscanf_unescaped, FromScanf, RegexRepresentation};
use std::cell::Cell;
use std::error::Error as StdError;
use std::str::FromStr;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P17.rs"));
}

// ------------------------------------------------------------------ errors that know which one they are
thread_local! { static MADE: Cell<u64> = const { Cell::new(0) }; }
fn fresh() -> u64 {
    MADE.with(|m| {
        m.set(m.get() + 1);
        m.get()
    })
}
/// every error of a conversion is a different one, numbered in the order in which they are made
#[derive(Debug)]
struct Numbered(&'static str, u64);
impl std::fmt::Display for Numbered {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{} #{}>", self.0, self.1)
    }
}
impl StdError for Numbered {}
/// an error with a cause of its own
#[derive(Debug)]
struct Caused(Box<dyn StdError + Send + Sync>);
impl std::fmt::Display for Caused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "caused by ({})", self.0)
    }
}
impl StdError for Caused {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        Some(&*self.0)
    }
}
/// an error with an empty text
#[derive(Debug)]
struct Silent;
impl std::fmt::Display for Silent {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl StdError for Silent {}

// ------------------------------------------------------------------ types that fail
macro_rules! from_str {
    ($($t:ident, $re:literal, |$s:ident| $e:expr, $err:ty;)*) => { $(
        #[derive(Debug)] struct $t(String);
        impl FromStr for $t {
            type Err = $err;
            fn from_str($s: &str) -> Result<Self, $err> { if $s.contains('X') { Err($e) } else { Ok($t($s.into())) } }
        }
        impl RegexRepresentation for $t { const REGEX: &'static str = $re; }
    )* };
}
from_str! {
    Num, r"[a-zX]+", |s| Numbered("Num", fresh()), Numbered;
    Other, r"[a-zX]+", |s| Numbered("Other", fresh()), Numbered;
    Deep, r"[a-zX]+", |s| Caused(Box::new(Caused(Box::new(Numbered("Deep", fresh()))))), Caused;
    Quiet, r"[a-zX]+", |s| Silent, Silent;
    Std, r"[a-zX0-9]+", |s| s.parse::<u8>().unwrap_err(), std::num::ParseIntError;
    Fmt, r"[a-zX]+", |s| std::fmt::Error, std::fmt::Error;
    Io, r"[a-zX]+", |s| std::io::Error::new(std::io::ErrorKind::Other, Numbered("io", fresh())), std::io::Error;
    /*r*/ Utf, r"[a-zX]+", |s| String::from_utf8(vec![b'a', 0xff]).unwrap_err(), std::string::FromUtf8Error;
}
/// a type that is parsed by sscanf itself
#[derive(Debug)]
struct Own(u8, u8);
impl FromStr for Own {
    type Err = sscanf::Error;
    fn from_str(s: &str) -> Result<Self, sscanf::Error> {
        sscanf!(s, "{u8}x{u8}").map(|(a, b)| Own(a, b))
    }
}
impl RegexRepresentation for Own {
    const REGEX: &'static str = r"[0-9x]+";
}
/// a manual implementation with an error type of its own
#[derive(Debug)]
struct Man(String);
impl RegexRepresentation for Man {
    const REGEX: &'static str = r"([a-zX]+)!";
}
impl<'t> FromScanf<'t> for Man {
    type Err = Numbered;
    const NUM_CAPTURES: usize = 2;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Numbered> {
        src.next();
        let s = src.next().unwrap().unwrap().as_str();
        if s.contains('X') { Err(Numbered("Man", fresh())) } else { Ok(Man(s.into())) }
    }
}
/// generic, with the type in its error
#[derive(Debug)]
struct Gen<T>(T);
impl<T: FromStr> FromStr for Gen<T> {
    type Err = Numbered;
    fn from_str(s: &str) -> Result<Self, Numbered> {
        s.parse().map(Gen).map_err(|_| Numbered("Gen", fresh()))
    }
}
impl<T> RegexRepresentation for Gen<T> {
    const REGEX: &'static str = "[0-9a-zX]+";
}

macro_rules! show_debug { ($($t:ty),* $(,)?) => { $(impl Show for $t { fn show(&self) -> String { format!("{self:?}") } })* }; }
show_debug!(Num, Other, Deep, Quiet, Std, Fmt, Io, Utf, Own, Man, Gen<u8>, Gen<String>, One, Pair, Back, r#type, inner::One, Level5, Choice, Maps, Raws, Borrowed<'_>, Generic<u8>, Defaulted, Unesc, Nested, Trans, Skipped);

#[derive(Debug, FromScanf)] #[sscanf("<{}>")] struct One(Num);
#[derive(Debug, FromScanf)] #[sscanf("{b},{a}")] struct Pair { a: Num, b: Other }
#[derive(Debug, FromScanf)] #[sscanf("{1};{0}")] struct Back(Num, Other);
#[derive(Debug, FromScanf)] #[sscanf("raw {}")] struct r#type(Num);
mod inner { #[derive(Debug, sscanf::FromScanf)] #[sscanf("inner {}")] pub struct One(pub super::Num); }
#[derive(Debug, FromScanf)] #[sscanf("1{}")] struct Level1(Deep);
#[derive(Debug, FromScanf)] #[sscanf("2{}{}")] struct Level2(Man, Level1);
#[derive(Debug, FromScanf)] enum Level3 { #[sscanf("3{}")] A(Level2), #[sscanf("3{}?")] B(Num) }
#[derive(Debug, FromScanf)] #[sscanf("4{x}")] struct Level4 { #[sscanf(default = 7)] _d: u8, x: Level3 }
#[derive(Debug, FromScanf)] #[sscanf(transparent)] struct Level5(Level4);
#[derive(Debug, FromScanf)]
enum Choice {
    #[sscanf("{}-{}")] A(Num, Other),
    #[sscanf("{b}-{a}!")] B { a: Num, b: Man2 },
    #[sscanf("{}={}")] C(One, Std),
    #[sscanf(skip)] D,
}
/// never in the place of the others: `!` is part of its text
#[derive(Debug)] struct Man2(String);
impl FromStr for Man2 { type Err = Numbered; fn from_str(s: &str) -> Result<Self, Numbered> { if s.contains('X') { Err(Numbered("Man2", fresh())) } else { Ok(Man2(s.into())) } } }
impl RegexRepresentation for Man2 { const REGEX: &'static str = "[a-zX]+"; }
struct Bad;
impl TryFrom<Num> for One { type Error = Numbered; fn try_from(n: Num) -> Result<One, Numbered> { if n.0 == "z" { Err(Numbered("TryFrom", fresh())) } else { Ok(One(n)) } } }
#[derive(Debug, FromScanf)] #[sscanf("{f} {} {t}")]
struct Maps {
    #[sscanf(filter_map = |s: Num| if s.0.len() == 1 { Some(s.0) } else { None })] f: String,
    #[sscanf(map = |n: Other| n.0)] m: String,
    #[sscanf(try_from = Num)] t: One,
}
#[derive(Debug, FromScanf)] #[sscanf("{type}/{match}")]
struct Raws {
    #[sscanf(filter_map = |s: u8| s.checked_sub(100))] r#type: u8,
    #[sscanf(filter_map = |s: u8| s.checked_sub(100))] r#match: u8,
}
#[derive(Debug, FromScanf)] #[sscanf("{}:{}:{}")]
struct Borrowed<'a>(&'a str, #[sscanf(filter_map = |s: &'a str| s.get(1..2))] &'a str, u8);
#[derive(Debug, FromScanf)] #[sscanf("g{}")]
struct Generic<T>(#[sscanf(filter_map = |s: Num| s.0.parse().ok())] T) where T: FromStr;
#[derive(Debug, FromScanf)] #[sscanf("d{a}")]
struct Defaulted { #[sscanf(default = panic!("not reached"))] d: u8, a: Num }
#[derive(Debug, FromScanf)] #[sscanf(format_unescaped = "u+{}(?:\\.|;){}")] struct Unesc(Num, One);
#[derive(Debug, FromScanf)] enum Nested { #[sscanf("({})")] N(Box2), #[sscanf("{}")] L(Num) }
#[derive(Debug)] struct Box2(Box<Nested2>);
#[derive(Debug, FromScanf)] enum Nested2 { #[sscanf("[{}]")] N(One), #[sscanf("{}")] L(Std) }
impl RegexRepresentation for Box2 { const REGEX: &'static str = Nested2::REGEX; }
impl<'t> FromScanf<'t> for Box2 {
    type Err = <Nested2 as FromScanf<'t>>::Err;
    const NUM_CAPTURES: usize = <Nested2 as FromScanf<'t>>::NUM_CAPTURES;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { Nested2::from_matches(src).map(|n| Box2(Box::new(n))) }
}
#[derive(Debug, FromScanf)] #[sscanf(transparent)] struct Trans(#[sscanf(filter_map = |s: Num| if s.0 == "no" { None } else { Some(s) })] Num);
#[derive(Debug, FromScanf)] enum Skipped { #[sscanf("{}", )] A(#[sscanf(try_from = Num)] One), #[sscanf("{}.")] B(u8) }

// ------------------------------------------------------------------ what an error is
type Dyn = dyn StdError + 'static;
fn describe(e: &Dyn) -> String {
    macro_rules! conversions { ($($t:ty),*) => { $(
        if let Some(x) = e.downcast_ref::<FromStrFailedError<$t>>() {
            let name = std::any::type_name::<$t>();
            let own: &dyn StdError = &x.error;
            // the public fields are the ones of the chain
            let same = x.source().map_or(false, |s| std::ptr::eq(s as *const Dyn as *const (), own as *const _ as *const ()));
            let text = format!("type {} failed to parse from a string: {}", name, x.error);
            return format!("conversion {}{}{}{}", stringify!($t), if x.type_name == name { "" } else { " MISNAMED" }, if same { "" } else { " OTHER SOURCE" }, if x.to_string() == text { "" } else { " TEXT" });
        }
    )* } }
    conversions!(Num, Other, Deep, Quiet, Std, Fmt, Io, Utf, Own, Man2, Gen<u8>, Gen<String>, u8, i8, u16, u128, i128, usize, f32, f64, bool, char,
        std::net::Ipv4Addr, std::net::Ipv6Addr, std::net::SocketAddr, std::num::NonZeroU8, std::num::NonZeroI64, sscanf::HexNumber, sscanf::FullF32);
    if let Some(x) = e.downcast_ref::<FromScanfFailedError>() {
        let same = x.source().map_or(false, |s| std::ptr::eq(s as *const Dyn as *const (), &*x.error as *const Dyn as *const ()));
        let text = format!("type {} failed to parse from sscanf: {}", x.type_name, x.error);
        return format!("derived {}{}{}", x.type_name.trim_start_matches("r#"), if same { "" } else { " OTHER SOURCE" }, if x.to_string() == text { "" } else { " TEXT" });
    }
    if let Some(x) = e.downcast_ref::<FilterMapNoneError>() {
        let f = x.field_name.trim_start_matches("r#");
        return format!("filter {f}{}", if x.to_string().contains(f) { "" } else { " TEXT" });
    }
    if let Some(x) = e.downcast_ref::<MissingPrefixError>() {
        return format!("prefix {x:?}");
    }
    if let Some(x) = e.downcast_ref::<Numbered>() {
        return x.to_string();
    }
    if let Some(x) = e.downcast_ref::<sscanf::Error>() {
        return match x { sscanf::Error::MatchFailed => "mismatch".into(), sscanf::Error::ParsingFailed(_) => "failure".into() };
    }
    macro_rules! others { ($($t:ty),*) => { $( if e.is::<$t>() { return format!("{}", stringify!($t).rsplit(':').next().unwrap().trim()); } )* } }
    others!(Caused, Silent, std::num::ParseIntError, std::num::ParseFloatError, std::str::ParseBoolError, std::char::ParseCharError, std::net::AddrParseError,
        std::fmt::Error, std::io::Error, std::string::FromUtf8Error, std::str::Utf8Error);
    format!("? {e}")
}
fn causes(r: Result<(), sscanf::Error>) -> String {
    let e = match r {
        Ok(()) => return "ok".into(),
        Err(e) => e,
    };
    let mut out = vec![match &e { sscanf::Error::MatchFailed => "mismatch".to_string(), sscanf::Error::ParsingFailed(_) => "failure".to_string() }];
    let mut all = vec![e.to_string()];
    let mut at = e.source();
    while let Some(c) = at {
        let t = c.to_string();
        if !all.last().unwrap().contains(&t) {
            out.push(format!("TEXT {t:?} NOT IN {:?}", all.last().unwrap()));
        }
        if c.is::<std::fmt::Error>() || !format!("{c:?}").is_empty() {
            out.push(describe(c));
        }
        all.push(t);
        at = c.source();
    }
    if let (sscanf::Error::ParsingFailed(b), Some(s)) = (&e, e.source()) {
        if !std::ptr::eq(&**b as *const Dyn as *const (), s as *const Dyn as *const ()) {
            out.push("OTHER SOURCE".into());
        }
    }
    // it can be passed on as any error, and still be taken for what it is
    let kind = std::mem::discriminant(&e);
    let b: Box<dyn StdError> = e.into();
    match b.downcast::<sscanf::Error>() {
        Ok(e) if std::mem::discriminant(&*e) == kind => {}
        _ => out.push("LOST".into()),
    }
    out.join(" <- ")
}
fn unit<T>(r: Result<T, sscanf::Error>) -> Result<(), sscanf::Error> {
    r.map(|_| ())
}

type Call = (&'static str, fn(&str) -> Result<(), sscanf::Error>, &'static [(&'static str, &'static str)]);
macro_rules! c { ($e:expr, $(($i:literal, $w:literal)),* $(,)?) => { (stringify!($e), $e, &[$(($i, $w)),*]) }; }
const N: &str = "failure <- conversion Num <- <Num #1>";
fn calls() -> Vec<Call> {
    vec![
        c!(|i| unit(sscanf!(i, "{Num}")), ("a", "ok"), ("1", "mismatch"), ("X", "failure <- conversion Num <- <Num #1>"), ("", "mismatch")),
        c!(|i| unit(sscanf!(i, "{}", Num)), ("aX", "failure <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{} {}", Num, Other)), ("X a", "failure <- conversion Num <- <Num #1>"), ("a X", "failure <- conversion Other <- <Other #1>"), ("X X", "failure <- conversion Num <- <Num #1>"), ("X 5", "mismatch")),
        c!(|i| unit(sscanf!(i, "{1} {0}", Num, Other)), ("X X", "failure <- conversion Other <- <Other #1>"), ("a X", "failure <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf_unescaped!(i, "(?:a|b)+ {Num}\\.*")), ("ab X..", "failure <- conversion Num <- <Num #1>"), ("c X", "mismatch"), ("a a.", "ok")),
        c!(|i| unit(sscanf!(i, "{Num:/.*/}")), ("1X2", "failure <- conversion Num <- <Num #1>"), ("", "ok")),
        c!(|i| unit(sscanf!(i, "{Deep}")), ("X", "failure <- conversion Deep <- Caused <- Caused <- <Deep #1>")),
        c!(|i| unit(sscanf!(i, "{Quiet}")), ("X", "failure <- conversion Quiet <- Silent")),
        c!(|i| unit(sscanf!(i, "{Std}")), ("X", "failure <- conversion Std <- ParseIntError")),
        c!(|i| unit(sscanf!(i, "{Fmt}")), ("X", "failure <- conversion Fmt <- Error")),
        c!(|i| unit(sscanf!(i, "{Io}")), ("X", "failure <- conversion Io <- Error")),
        c!(|i| unit(sscanf!(i, "{Utf}")), ("X", "failure <- conversion Utf <- FromUtf8Error")),
        c!(|i| unit(sscanf!(i, "{Own}")), ("1x2", "ok"), ("1", "failure <- conversion Own <- mismatch"), ("1x256", "failure <- conversion Own <- failure <- conversion u8 <- ParseIntError"), ("x1x", "failure <- conversion Own <- mismatch")),
        c!(|i| unit(sscanf!(i, "{Man}")), ("a!", "ok"), ("X!", "failure <- <Man #1>"), ("X", "mismatch")),
        c!(|i| unit(sscanf!(i, "{Man}{Man}")), ("a!X!", "failure <- <Man #1>"), ("X!X!", "failure <- <Man #1>")),
        c!(|i| unit(sscanf!(i, "{Gen<u8>}")), ("5", "ok"), ("256", "failure <- conversion Gen<u8> <- <Gen #1>"), ("a", "failure <- conversion Gen<u8> <- <Gen #1>")),
        c!(|i| unit(sscanf!(i, "{Gen<String>}")), ("5", "ok")),
        c!(|i| unit(sscanf!(i, "{One}")), ("<X>", "failure <- derived One <- conversion Num <- <Num #1>"), ("X", "mismatch"), ("<a>", "ok")),
        c!(|i| unit(One::from_str(i)), ("<X>", "failure <- derived One <- conversion Num <- <Num #1>"), ("X", "mismatch"), ("<a>", "ok")),
        c!(|i| unit(<Num as FromScanf>::from_str(i)), ("X", "failure <- conversion Num <- <Num #1>"), ("aX", "failure <- conversion Num <- <Num #1>"), ("1X", "failure <- conversion Num <- <Num #1>"), ("1", "ok")),
        c!(|i| unit(<Deep as FromScanf>::from_str(i)), ("X", "failure <- conversion Deep <- Caused <- Caused <- <Deep #1>")),
        c!(|i| unit(<u8 as FromScanf>::from_str(i)), ("256", "failure <- conversion u8 <- ParseIntError"), ("", "failure <- conversion u8 <- ParseIntError"), ("5", "ok")),
        c!(|i| unit(Man::from_str(i)), ("X!", "failure <- <Man #1>"), ("X", "mismatch")),
        c!(|i| unit(sscanf!(i, "{Pair}")), ("X,X", "failure <- derived Pair <- conversion Other <- <Other #1>"), ("a,X", "failure <- derived Pair <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{Back}")), ("X;X", "failure <- derived Back <- conversion Other <- <Other #1>"), ("a;X", "failure <- derived Back <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{Pair} {Back}")), ("a,a X;a", "failure <- derived Back <- conversion Other <- <Other #1>"), ("a,X X;X", "failure <- derived Pair <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{}", r#type)), ("raw X", "failure <- derived type <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{inner::One}{One}")), ("inner X<X>", "failure <- derived One <- conversion Num <- <Num #1>"), ("inner a<X>", "failure <- derived One <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{Level5}")), ("432a!1b", "ok"),
            ("432a!1X", "failure <- derived Level5 <- derived Level4 <- derived Level3 <- derived Level2 <- derived Level1 <- conversion Deep <- Caused <- Caused <- <Deep #1>"),
            ("432X!1X", "failure <- derived Level5 <- derived Level4 <- derived Level3 <- derived Level2 <- <Man #1>"),
            ("43X?", "failure <- derived Level5 <- derived Level4 <- derived Level3 <- conversion Num <- <Num #1>"), ("432X!1", "mismatch")),
        c!(|i| unit(Level5::from_str(i)), ("432a!1X", "failure <- derived Level5 <- derived Level4 <- derived Level3 <- derived Level2 <- derived Level1 <- conversion Deep <- Caused <- Caused <- <Deep #1>")),
        c!(|i| unit(sscanf!(i, "{u8} {Level5} {Num}")), ("5 432a!1X X", "failure <- derived Level5 <- derived Level4 <- derived Level3 <- derived Level2 <- derived Level1 <- conversion Deep <- Caused <- Caused <- <Deep #1>"),
            ("256 432a!1X X", "failure <- conversion u8 <- ParseIntError"), ("5 43a? X", "failure <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{Choice}")), ("X-X", "failure <- derived Choice <- conversion Num <- <Num #1>"), ("a-X", "failure <- derived Choice <- conversion Other <- <Other #1>"),
            ("X-X!", "failure <- derived Choice <- conversion Man2 <- <Man2 #1>"), ("a-X!", "failure <- derived Choice <- conversion Num <- <Num #1>"),
            ("<X>=5X", "failure <- derived Choice <- derived One <- conversion Num <- <Num #1>"), ("<a>=5X", "failure <- derived Choice <- conversion Std <- ParseIntError"), ("D", "mismatch"), ("<a>=5", "ok")),
        c!(|i| unit(Choice::from_str(i)), ("X-X", "failure <- derived Choice <- conversion Num <- <Num #1>"), ("<X>=5X", "failure <- derived Choice <- derived One <- conversion Num <- <Num #1>"), ("D", "mismatch")),
        c!(|i| unit(sscanf!(i, "{Maps}")), ("a b c", "ok"), ("aa b c", "failure <- derived Maps <- filter f"), ("X b c", "failure <- derived Maps <- conversion Num <- <Num #1>"),
            ("a X z", "failure <- derived Maps <- conversion Other <- <Other #1>"), ("a b z", "failure <- derived Maps <- <TryFrom #1>"), ("a b X", "failure <- derived Maps <- conversion Num <- <Num #1>"),
            ("aa X z", "failure <- derived Maps <- filter f")),
        c!(|i| unit(Maps::from_str(i)), ("aa b c", "failure <- derived Maps <- filter f"), ("a b z", "failure <- derived Maps <- <TryFrom #1>"), ("a  c", "mismatch")),
        c!(|i| unit(sscanf!(i, "{Raws}")), ("100/100", "ok"), ("99/99", "failure <- derived Raws <- filter type"), ("100/99", "failure <- derived Raws <- filter match"), ("256/1", "failure <- derived Raws <- conversion u8 <- ParseIntError")),
        c!(|i| unit(sscanf!(i, "{Borrowed}")), ("a:bc:1", "ok"), ("a:b:1", "failure <- derived Borrowed <- filter 1"), ("a:bc:256", "failure <- derived Borrowed <- conversion u8 <- ParseIntError"), ("a:b:256", "failure <- derived Borrowed <- filter 1")),
        c!(|i| unit(Borrowed::from_str(i)), ("a:b:1", "failure <- derived Borrowed <- filter 1")),
        c!(|i| unit(sscanf!(i, "{Generic<u8>}")), ("gX", "failure <- derived Generic <- conversion Num <- <Num #1>"), ("ga", "failure <- derived Generic <- filter 0")),
        c!(|i| unit(sscanf!(i, "{Defaulted}")), ("x", "mismatch")),
        c!(|i| unit(sscanf!(i, "{Unesc}")), ("uuX;<X>", "failure <- derived Unesc <- conversion Num <- <Num #1>"), ("ua.<X>", "failure <- derived Unesc <- derived One <- conversion Num <- <Num #1>"), ("ua <X>", "mismatch")),
        c!(|i| unit(sscanf!(i, "{Nested}")), ("([<X>])", "failure <- derived Nested <- derived Nested2 <- derived One <- conversion Num <- <Num #1>"), ("(X)", "failure <- derived Nested <- derived Nested2 <- conversion Std <- ParseIntError"), ("X", "failure <- derived Nested <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{Trans},{Trans}")), ("a,a", "ok"), ("a,no", "failure <- derived Trans <- filter 0"), ("no,X", "failure <- derived Trans <- filter 0"), ("X,no", "failure <- derived Trans <- conversion Num <- <Num #1>")),
        c!(|i| unit(sscanf!(i, "{Skipped}")), ("z", "failure <- derived Skipped <- <TryFrom #1>"), ("X", "failure <- derived Skipped <- conversion Num <- <Num #1>"), ("256.", "failure <- derived Skipped <- conversion u8 <- ParseIntError")),
        c!(|i| unit(sscanf!(i, "{u8:#x}")), ("ff", "mismatch"), ("0x1", "ok"), ("+1", "mismatch"), ("0xfff", "mismatch"), ("+0xff", "ok")),
        c!(|i| unit(sscanf!(i, "{:#o} {:#b}", i8, u16)), ("7 1", "mismatch"), ("0o7 1", "mismatch"), ("0o7 0b1", "ok"), ("0o377 0b1", "failure <- ParseIntError"), ("-0o201 0b1", "failure <- ParseIntError"), ("-0o7 0b1", "ok")),
        c!(|i| unit(sscanf!(i, "{i8:b} {u128:r36}")), ("10000000 1", "failure <- ParseIntError"), ("-10000000 1", "ok"), ("-11111111 1", "failure <- ParseIntError"), ("1 zzzzzzzzzzzzzzzzzzzzzzzzz", "failure <- ParseIntError")),
        c!(|i| unit(sscanf!(i, "{std::num::NonZeroU8}{std::num::NonZeroI64}")), ("256-1", "failure <- conversion std::num::NonZeroU8 <- ParseIntError"), ("1-9999999999999999999", "failure <- conversion std::num::NonZeroI64 <- ParseIntError"), ("0-1", "mismatch")),
        c!(|i| unit(sscanf!(i, "{f64:/.*/};{bool:/.*/};{char:/.*/}")), ("x;true;a", "failure <- conversion f64 <- ParseFloatError"), ("1;True;a", "failure <- conversion bool <- ParseBoolError"), ("1;true;ab", "failure <- conversion char <- ParseCharError"), ("1;x;", "failure <- conversion bool <- ParseBoolError")),
        c!(|i| unit(sscanf!(i, "{std::net::Ipv4Addr:/.*/} {std::net::Ipv6Addr:/.*/} {std::net::SocketAddr:/.*/}")), ("1.2.3.4 ::1 1.2.3.4:5", "ok"), ("1.2.3 ::1 1", "failure <- conversion std::net::Ipv4Addr <- AddrParseError"),
            ("1.2.3.4 1 1", "failure <- conversion std::net::Ipv6Addr <- AddrParseError"), ("1.2.3.4 ::1 1", "failure <- conversion std::net::SocketAddr <- AddrParseError")),
        c!(|i| unit(sscanf!(i, "{} {}", sscanf::HexNumber, sscanf::FullF32)), ("11111111111111111 1", "failure <- conversion sscanf::HexNumber <- ParseIntError")),
        c!(|i| unit(sscanf!(i, "{usize}{i128}{f32}")), ("99999999999999999999-1-1", "failure <- conversion usize <- ParseIntError"), ("1-170141183460469231731687303715884105729-1", "failure <- conversion i128 <- ParseIntError")),
    ]
}

fn main() {
    quiet_panics();
    watchdog("P17", 60);
    let mut rep = Report::new("P17");
    let plan = plan::plan("P17", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options { chains: true, inputs: tiered(1500, 10000), ..Options::default() });

    for (call, f, cases) in calls() {
        // every case twice: the second one is a different error of the same kind
        for round in 1..=2 {
            for (input, want) in cases.iter() {
                let got = watched(input, || caught(|| {
                    MADE.with(|m| m.set(round - 1));
                    causes(f(input))
                }));
                let want = want.replace("#1", &format!("#{round}"));
                rep.count(if want.starts_with("failure") { "hand-written: failures" } else { "hand-written: others" });
                rep.add("hand-written: levels of causes", want.matches("<-").count() as u64);
                rep.eval(spec::hash_str(&format!("{call}{input}{round}")), true);
                let got = got.unwrap_or_else(|p| format!("panic: {p}"));
                if got != want {
                    rep.violation(format!("{call}|{input}"), format!("{call}\non {input:?}\ngot:      {got}\nexpected: {want}"));
                }
            }
        }
    }
    rep.finish();
}
