//! Types of the harness that are parsed by the monitored code
use crate::{log, Show};
use sscanf::{FromScanf, RegexRepresentation};
use std::str::FromStr;

/// What a Tag type says
macro_rules! tags {
    ($($t:ident $l:ident $n:literal),*) => { $(
        #[derive(Debug, Clone, PartialEq, Default)]
        pub struct $t(pub String);
        impl FromStr for $t {
            type Err = std::convert::Infallible;
            fn from_str(s: &str) -> Result<Self, Self::Err> { Ok($t(s.to_string())) }
        }
        impl RegexRepresentation for $t {
            const REGEX: &'static str = concat!("[a-z]+(?:", $n, ")?");
        }
        impl Show for $t {
            fn show(&self) -> String { format!(concat!(stringify!($t), ":{}"), self.0) }
        }

        #[derive(Debug, Clone, PartialEq, Default)]
        pub struct $l(pub String);
        impl FromStr for $l {
            type Err = LogErr;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                log(format!(concat!(stringify!($l), "({})"), s));
                if s.contains('X') { Err(LogErr($n, s.to_string())) } else { Ok($l(s.to_string())) }
            }
        }
        impl RegexRepresentation for $l {
            const REGEX: &'static str = "[a-zA-Z0-9]+";
        }
        impl Show for $l {
            fn show(&self) -> String { format!(concat!(stringify!($l), ":{}"), self.0) }
        }
    )* };
}
tags!(T0 L0 "0", T1 L1 "1", T2 L2 "2", T3 L3 "3", T4 L4 "4", T5 L5 "5", T6 L6 "6", T7 L7 "7", T8 L8 "8", T9 L9 "9");

/// number of the type that failed, and the text it was given
#[derive(Debug, Clone, PartialEq)]
pub struct LogErr(pub &'static str, pub String);
impl std::fmt::Display for LogErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "LogErr<{}|{}>", self.0, self.1)
    }
}
impl std::error::Error for LogErr {}

/// manual implementation with captures
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct ManualPoint {
    pub x: u16,
    pub y: u16,
}
impl RegexRepresentation for ManualPoint {
    const REGEX: &'static str = r"([0-9]+)/([0-9]+)";
}
impl FromScanf<'_> for ManualPoint {
    type Err = std::num::ParseIntError;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches) -> Result<Self, Self::Err> {
        let _ = src.next().unwrap().unwrap();
        // all captures are taken before anything can fail
        let (x, y) = (src.next().unwrap().unwrap(), src.next().unwrap().unwrap());
        Ok(ManualPoint { x: x.as_str().parse()?, y: y.as_str().parse()? })
    }
}
impl Show for ManualPoint {
    fn show(&self) -> String {
        format!("mp:{}/{}", self.x, self.y)
    }
}
/// manual implementation with captures that may not take part in the match
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ManualOpt(pub Option<(String, Option<String>)>);
impl RegexRepresentation for ManualOpt {
    const REGEX: &'static str = r"none|some\(([a-z]+)\)([!?]?)";
}
impl FromScanf<'_> for ManualOpt {
    type Err = std::convert::Infallible;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches) -> Result<Self, Self::Err> {
        let _ = src.next().unwrap().unwrap();
        let (a, b) = (src.next().unwrap(), src.next().unwrap());
        Ok(ManualOpt(a.map(|a| (a.as_str().to_string(), b.map(|b| b.as_str().to_string())))))
    }
}
impl Show for ManualOpt {
    fn show(&self) -> String {
        match &self.0 {
            None => "mo:none".into(),
            Some((a, b)) => format!("mo:{}{}", a, b.as_deref().unwrap_or("-")),
        }
    }
}

/// Target of all field conversions: remembers the conversion and what it was given
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Mapped(pub String);
impl Show for Mapped {
    fn show(&self) -> String {
        self.0.clone()
    }
}
pub fn mapped<T: Show>(x: T) -> Mapped {
    let s = format!("map({})", x.show());
    log(s.clone());
    Mapped(s)
}
pub fn fmapped<T: Show>(x: T) -> Option<Mapped> {
    let v = x.show();
    let s = format!("fmap({v})");
    log(s.clone());
    if monlib::spec::rejects(&v) {
        None
    } else {
        Some(Mapped(s))
    }
}
/// types that `Mapped` can be made from
pub trait Src: Show {}
impl<T: Src> From<T> for Mapped {
    fn from(x: T) -> Mapped {
        let s = format!("from({})", x.show());
        log(s.clone());
        Mapped(s)
    }
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct TryMapped(pub String);
impl Show for TryMapped {
    fn show(&self) -> String {
        self.0.clone()
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct TryErr(pub String);
impl std::fmt::Display for TryErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TryErr<{}>", self.0)
    }
}
impl std::error::Error for TryErr {}
pub fn try_mapped<T: Show>(x: T) -> Result<TryMapped, TryErr> {
    let v = x.show();
    let s = format!("tryfrom({v})");
    log(s.clone());
    if monlib::spec::rejects(&v) {
        Err(TryErr(v))
    } else {
        Ok(TryMapped(s))
    }
}
/// makes a type usable with `from` and `try_from`
#[macro_export]
macro_rules! src_types {
    ($($t:ty),* $(,)?) => { $(
        impl $crate::Src for $t {}
        impl ::std::convert::TryFrom<$t> for $crate::TryMapped {
            type Error = $crate::TryErr;
            fn try_from(x: $t) -> Result<Self, $crate::TryErr> { $crate::try_mapped(x) }
        }
    )* };
}
src_types!(
    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
    std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64,
    std::num::NonZeroU128, std::num::NonZeroUsize, std::num::NonZeroI8, std::num::NonZeroI16,
    std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroI128, std::num::NonZeroIsize,
    f32, f64, char, bool, String, &str, std::borrow::Cow<'_, str>, std::path::PathBuf,
    std::net::Ipv4Addr, std::net::IpAddr, sscanf::FullF32, sscanf::FullF64, sscanf::HexNumber,
    T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, L0, L1, L2, L3, L4, L5, L6, L7, L8, L9,
    ManualPoint, ManualOpt,
);
/// value of a `default = ...`
pub fn logged_default<T: Show>(x: T) -> T {
    log(format!("default({})", x.show()));
    x
}

/// a type of the user's that dereferences to a string
pub struct Text {
    pub text: String,
    pub reads: std::cell::Cell<usize>,
}
impl std::ops::Deref for Text {
    type Target = str;
    fn deref(&self) -> &str {
        self.reads.set(self.reads.get() + 1);
        &self.text
    }
}
