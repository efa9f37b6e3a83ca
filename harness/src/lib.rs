//! Support for the monitors: observable form of every value, event log, site runner.
#![allow(deprecated)]
pub use monlib::{self, gen, plan, re, report::Report, rng::Rng, spec};
use std::cell::{Cell, RefCell};

pub mod long;
pub mod run;
pub mod types;
pub mod nums;
pub use run::*;
pub use types::*;

thread_local! {
    static BASE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
/// the input that borrowed results are expected to point into
pub fn set_base(s: &str) {
    BASE.with(|b| b.set((s.as_ptr() as usize, s.len())));
}
pub fn offset_of(s: &str) -> String {
    let (base, len) = BASE.with(|b| b.get());
    let p = s.as_ptr() as usize;
    if p >= base && p + s.len() <= base + len {
        (p - base).to_string()
    } else {
        "-".into()
    }
}
pub fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Canonical text of a value
pub trait Show {
    fn show(&self) -> String;
}
/// The result of `sscanf!`, one text per placeholder
pub trait ShowAll {
    fn show_all(&self) -> Vec<String>;
}
impl ShowAll for () {
    fn show_all(&self) -> Vec<String> {
        vec![]
    }
}
impl<T: Show> ShowAll for T {
    fn show_all(&self) -> Vec<String> {
        vec![self.show()]
    }
}
macro_rules! tuples {
    ($first:ident $($t:ident)*) => {
        tuples!(@impl $first $($t)*);
        tuples!($($t)*);
    };
    () => {};
    (@impl $a:ident) => {};
    (@impl $($t:ident)*) => {
        impl<$($t: Show),*> ShowAll for ($($t,)*) {
            #[allow(non_snake_case)]
            fn show_all(&self) -> Vec<String> {
                let ($($t,)*) = self;
                vec![$($t.show()),*]
            }
        }
    };
}
tuples!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z AA BB CC DD EE FF GG HH II JJ KK LL MM NN
    OO PP QQ RR SS TT UU VV WW XX YY ZZ AAA BBB CCC DDD EEE FFF GGG HHH III JJJ KKK LLL MMM NNN OOO PPP QQQ RRR SSS TTT UUU VVV WWW XXX YYY ZZZ);

macro_rules! show_display {
    ($($t:ty => $n:literal),* $(,)?) => {
        $(impl Show for $t {
            fn show(&self) -> String { format!(concat!($n, ":{}"), self) }
        })*
    };
}
show_display!(
    u8 => "u8", u16 => "u16", u32 => "u32", u64 => "u64", u128 => "u128", usize => "usize",
    i8 => "i8", i16 => "i16", i32 => "i32", i64 => "i64", i128 => "i128", isize => "isize",
    std::num::NonZeroU8 => "nzu8", std::num::NonZeroU16 => "nzu16", std::num::NonZeroU32 => "nzu32",
    std::num::NonZeroU64 => "nzu64", std::num::NonZeroU128 => "nzu128", std::num::NonZeroUsize => "nzusize",
    std::num::NonZeroI8 => "nzi8", std::num::NonZeroI16 => "nzi16", std::num::NonZeroI32 => "nzi32",
    std::num::NonZeroI64 => "nzi64", std::num::NonZeroI128 => "nzi128", std::num::NonZeroIsize => "nzisize",
    char => "char", bool => "bool", String => "string",
    std::net::Ipv4Addr => "ip4", std::net::IpAddr => "ip",
);
impl Show for f32 {
    fn show(&self) -> String {
        spec::show_f32(*self)
    }
}
impl Show for f64 {
    fn show(&self) -> String {
        spec::show_f64(*self)
    }
}
impl Show for sscanf::FullF32 {
    fn show(&self) -> String {
        format!("Full{}", spec::show_f32(self.0))
    }
}
impl Show for sscanf::FullF64 {
    fn show(&self) -> String {
        format!("Full{}", spec::show_f64(self.0))
    }
}
impl Show for sscanf::HexNumber {
    fn show(&self) -> String {
        format!("Hex:{}", self.0)
    }
}
impl Show for str {
    fn show(&self) -> String {
        format!("str@{}:{self}", offset_of(self))
    }
}
impl Show for &str {
    fn show(&self) -> String {
        (**self).show()
    }
}
impl Show for std::borrow::Cow<'_, str> {
    fn show(&self) -> String {
        match self {
            std::borrow::Cow::Borrowed(s) => format!("cow@{}:{s}", offset_of(s)),
            std::borrow::Cow::Owned(s) => format!("cow@owned:{s}"),
        }
    }
}
impl Show for std::path::PathBuf {
    fn show(&self) -> String {
        format!("path:{}", self.to_str().unwrap())
    }
}
