"""P20: well-formed programs compile cleanly wherever they are written"""
import re
import re
import ct

SOME = "::core::option::Option::Some"
INTERNAL = ["start_len", "value", "f", "res", "expected", "n", "cap", "remaining", "catcher", "error", "input", "src_str"]

LIFETIMES = ["'" + l for l in "abcdefghijklmnopqrstuvwxyz"] + ["'src", "'input", "'text", "'str", "'de", "'lt", "'data", "'scan", "'from", "'matches", "'sscanf", "'lifetime", "'this", "'s1", "'life", "'source", "'caps"]

# (name, items, expression that has to be true); everything but the words of sscanf is written in full,
# so that the surroundings may shadow it
USES = [
    ("int", "", '::sscanf::sscanf!("5", "{u8}").ok() == %s(5)' % SOME),
    ("args", "", '::sscanf::sscanf!("a=5,b=x", "a={},b={}", u8, str).ok() == %s((5, "x"))' % SOME),
    ("indices", "", '::sscanf::sscanf!("x5x", "{1}{0}{}", u8, char,).is_ok() == false && ::sscanf::sscanf!("x5x", "{1}{0}{1}", u8, char,).ok() == %s((\'x\', 5, \'x\'))' % SOME),
    ("none", "", '::sscanf::sscanf!("x{}", "x{{}}").is_ok()'),
    ("radix", "", '::sscanf::sscanf!("ff -0b1 55", "{u8:x} {i8:#b} {:r6}", i128).ok() == %s((255, -1, 35))' % SOME),
    ("all radix", "", '::sscanf::sscanf!("0xf 0O7 z", "{u128:#x} {usize:o} {isize:r36}").ok() == %s((15, 7, 35))' % SOME),
    ("regex", "", '::sscanf::sscanf!("ab/9", r"{str:/[a-z]+/}/{u8:/\\d/}").ok() == %s(("ab", 9))' % SOME),
    ("unescaped", "", '::sscanf::sscanf_unescaped!("a5", "[a-c]{{1}}{u8}").ok() == %s(5)' % SOME),
    ("get_regex", "", '::sscanf::sscanf_get_regex!("{u8}").is_match("5")'),
    ("deprecated", "", 'OLD::sscanf::scanf!("5", "{u8}").ok() == %s(5)' % SOME),
    ("cow", "", '::sscanf::sscanf!("ab", "{}", ::std::borrow::Cow<str>).ok().map(|c| c.len()) == %s(2)' % SOME),
    ("cow inline", "", '::sscanf::sscanf!("ab", "{::std::borrow::Cow<\'_, str>}").ok().map(|c| c.len()) == %s(2)' % SOME),
    ("std types", "", '::sscanf::sscanf!("a true c 1e3 7 p", "{} {bool} {char} {f64} {} {}", ::std::string::String, ::std::num::NonZeroU8, ::std::path::PathBuf).is_ok()'),
    ("owned input", "", '{ let o: ::std::string::String = ::std::convert::From::from("5"); ::sscanf::sscanf!(o, "{u8}").ok() == %s(5) && o.len() == 1 }' % SOME),
    ("input expr", "", '::sscanf::sscanf!({ let x = "5"; if x.len() == 1 { x } else { "" } }, "{u8}").ok() == %s(5)' % SOME),
    ("return in input", "", '(|| { ::sscanf::sscanf!(if "a".len() == 1 { return true } else { "" }, "{u8}").is_ok() })()'),
    ("question mark", "", '(|| -> ::core::result::Result<u8, ::std::boxed::Box<dyn ::std::error::Error>> { ::core::result::Result::Ok(::sscanf::sscanf!("5", "{u8}")?) })().is_ok()'),
    ("let pattern", "", '{ let (a, b) = match ::sscanf::sscanf!("1-2", "{}-{}", u8, u16) { ::core::result::Result::Ok(v) => v, ::core::result::Result::Err(_) => (0, 0) }; a as u16 + b == 3 }'),
    ("many", "", '::sscanf::sscanf!("123456789abcd", "%s").ok().is_some()' % ("{char}" * 13)),
    ("nested macro", "", '::sscanf::sscanf!(::sscanf::sscanf!("a5b", "a{str}b").ok().map_or("", |x| x), "{u8}").ok() == %s(5)' % SOME),
    ("struct", "#[derive(::sscanf::FromScanf)]\n#[sscanf(format = \"{a}-{b}\")]\nstruct Sa<'x> { b: &'x str, a: u8 }",
     '::sscanf::sscanf!("5-x", "{Sa}").ok().map(|s| (s.a, s.b)) == %s((5, "x"))' % SOME),
    ("from_str", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{}-{}\")]\nstruct Sb(u8, ::std::string::String);",
     '<Sb as ::sscanf::FromScanf>::from_str("5-x").ok().map(|s| (s.0, s.1.len())) == %s((5, 1))' % SOME),
    ("transparent", "#[derive(::sscanf::FromScanf)]\n#[sscanf(transparent)]\nstruct Sc<'y>(&'y str);", '::sscanf::sscanf!("5-x", "{}", Sc).ok().map(|s| s.0) == %s("5-x")' % SOME),
    ("unit", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"unit\")]\nstruct Sd;\n#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{{}}\")]\nstruct Se {}\n#[derive(::sscanf::FromScanf)]\n#[sscanf(\"()\")]\nstruct Sf();",
     '::sscanf::sscanf!("unit{}()", "{Sd}{Se}{Sf}").is_ok()'),
    ("enum", "#[derive(::sscanf::FromScanf)]\n#[sscanf(autogen = \"kebab-case\")]\nenum Ea { OneTwo, #[sscanf(\"t{}\")] Three(u8), #[sscanf(skip)] Four, Ok, Some, None, Err, Default }",
     '{ let _ = Ea::Four; ::sscanf::sscanf!("one-twot5someerr", "{Ea}{Ea}{Ea}{Ea}").ok().map_or(false, |v| match v { (Ea::OneTwo, Ea::Three(5), Ea::Some, Ea::Err) => true, _ => false }) }'),
    ("enum casings", "#[derive(::sscanf::FromScanf, PartialEq, Clone, Copy)]\n#[sscanf(autogen = \"CaseInsensitive\")]\nenum Eb { A, B }", '::sscanf::sscanf!("aB", "{}{0}", Eb).ok() == %s((Eb::A, Eb::B))' % SOME),
    ("conversions", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{a} {b} {c} {d}\")]\nstruct Cv { #[sscanf(map = |x: u8| x as u32 + 1)] a: u32, #[sscanf(filter_map = |x: &str| ::core::iter::Iterator::next(&mut x.chars()))] b: char, "
     "#[sscanf(from = u8)] c: u64, #[sscanf(try_from = u32)] d: u8, #[sscanf(default)] e: u8, #[sscanf(default = { let x = 5; x })] f: u8, #[sscanf(default = \"x\")] g: &'static str }",
     '::sscanf::sscanf!("1 q 3 4", "{Cv}").ok().map(|c| (c.a, c.b, c.c, c.d, c.e, c.f, c.g)) == %s((2, \'q\', 3, 4, 0, 5, "x"))' % SOME),
    ("generic", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{v:/.*?/}|{w}\")]\nstruct Ga<'k, T, const N: usize = 2>\nwhere\n    T: ::core::str::FromStr + 'static,\n    <T as ::core::str::FromStr>::Err: ::std::error::Error + 'static,\n"
     "{ v: T, w: &'k str, #[sscanf(default = [0; N])] n: [u8; N] }", '<Ga<u8, 3> as ::sscanf::FromScanf>::from_str("5|x").ok().map(|g| (g.v, g.w, g.n.len())) == %s((5, "x", 3))' % SOME),
    ("marker generic", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"m{}\")]\nstruct Gb<T: ?Sized>(u8, #[sscanf(default)] ::core::marker::PhantomData<T>);", '<Gb<str> as ::sscanf::FromScanf>::from_str("m5").ok().map(|g| { let _ = g.1; g.0 }) == %s(5)' % SOME),
    ("raw names", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{type} {fn}\")]\nstruct Ra { r#fn: u8, r#type: u8 }\n#[derive(::sscanf::FromScanf)]\n#[sscanf(autogen = \"lowercase\")]\n#[allow(non_camel_case_types)]\nenum Rb { r#match, r#loop }\n"
     "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{}\")]\n#[allow(non_camel_case_types)]\nstruct r#struct(u8);",
     '::sscanf::sscanf!("1 2match3", "{Ra}{Rb}{r#struct}").ok().map(|(a, b, c)| (a.r#type, a.r#fn, match b { Rb::r#match => 1, Rb::r#loop => 2 }, c.0)) == %s((1, 2, 1, 3))' % SOME),
    ("internal names", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{src} {value} {regex} {n} {res} {expected} {error} {catcher} {f} {start_len} {remaining} {cap}\")]\nstruct In { src: u8, value: u8, regex: u8, n: u8, res: u8, expected: u8, "
     "#[sscanf(map = |src: u8| src)] error: u8, #[sscanf(filter_map = |value: u8| %s(value))] catcher: u8, #[sscanf(from = u8)] f: u8, #[sscanf(try_from = u8)] start_len: u8, remaining: u8, cap: u8 }" % SOME,
     '::sscanf::sscanf!("1 2 3 4 5 6 7 8 9 10 11 12", "{In}").ok().map(|x| x.src + x.value + x.regex + x.n + x.res + x.expected + x.error + x.catcher + x.f + x.start_len + x.remaining + x.cap) == %s(78)' % SOME),
    ("nested derived", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"<{}>\")]\nstruct Na(u8);\n#[derive(::sscanf::FromScanf)]\nenum Nb { #[sscanf(\"{a}{}\")] A { b: ::core::primitive::u8, a: Na }, #[sscanf(transparent)] B(Na) }",
     '::sscanf::sscanf!("<1>2<3>", "{Nb}{Nb}").ok().map_or(false, |v| match v { (Nb::A { a, b }, Nb::B(c)) => a.0 + b + c.0 == 6, _ => false })'),
    ("lifetimes", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{a} {b} {}\")]\nstruct La<'a, 'input: 'a, 't> { a: &'a str, b: &'input str, c: ::std::borrow::Cow<'t, str> }",
     '::sscanf::sscanf!("x y z", "{La}").ok().map(|l| (l.a, l.b, l.c.len())) == %s(("x", "y", 1))' % SOME),
    ("visibility", "pub(self) mod inner {\n    #[derive(::sscanf::FromScanf, Debug)]\n    #[sscanf(\"{}{}{}\")]\n    #[repr(C)]\n    pub(super) struct Va(pub(super) char, pub(in super) char, char);\n    impl Va { pub(super) fn c(&self) -> char { self.2 } }\n}",
     '::sscanf::sscanf!("xyz", "{}", inner::Va).ok().map(|v| (v.0, v.1, v.c())) == %s((\'x\', \'y\', \'z\'))' % SOME),
    ("display", "", '::std::string::ToString::to_string(&::sscanf::sscanf!("x", "{u8}").err().map(|e| { let e: ::std::boxed::Box<dyn ::std::error::Error> = ::std::convert::From::from(e); e.to_string() }).unwrap_or_default()).len() > 10'),
    ("unused result of unit", "", '{ let _: () = ::sscanf::sscanf!("x", "x").map_or((), |x| x); true }'),
    ("alias", "type Alias = u8;\n#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{}\")]\nstruct Ba(Alias);", '::sscanf::sscanf!("5 6", "{Ba} {Alias}").ok().map(|(a, b)| a.0 + b) == %s(11)' % SOME),
    ("self in map", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{}\")]\nstruct Sm(#[sscanf(map = |x: u8| Self::twice(x))] u8);\nimpl Sm { fn twice(x: u8) -> u8 { 2 * x } }", '::sscanf::sscanf!("5", "{Sm}").ok().map(|s| s.0) == %s(10)' % SOME),
    ("cfg", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{}\")]\n#[cfg_attr(all(), derive(Debug))]\nstruct Cf(#[allow(unused)] u8);\n#[derive(::sscanf::FromScanf)]\nenum Ce { #[sscanf(\"a\")] #[cfg(any())] A(NoSuchType), #[sscanf(\"b\")] B }",
     '{ let _ = |c: Ce| match c { Ce::B => 0 }; ::sscanf::sscanf!("5b", "{Cf}{Ce}").is_ok() && ::sscanf::sscanf!("5a", "{Cf}{Ce}").is_err() }'),
    ("multi line", "", '::sscanf::sscanf!(\n    "a\\nb", // comment\n    "{}\\n\\\n     {}", /* } */\n    char,\n    char\n).is_ok()'),
    ("many lifetimes", "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{a}\")]\nstruct Lm<%s> { a: &'a str, #[sscanf(default)] b: ::core::marker::PhantomData<(%s)> }" % (", ".join(LIFETIMES), ", ".join("&%s ()" % l for l in LIFETIMES)),
     '::sscanf::sscanf!("x", "{Lm}").ok().map(|l| { let _ = l.b; l.a }) == %s("x")' % SOME),
    ("functions with internal names", "mod fns {\n    #![allow(dead_code)]\n    pub(super) fn src(x: u8) -> u8 { x + 1 }\n"
     + "".join("    pub(super) fn %s() -> u8 { 7 }\n" % n for n in INTERNAL) + "}\nuse fns::{src, " + ", ".join(INTERNAL) + "};\n"
     "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{a} {b} {c}\")]\nstruct Fa { #[sscanf(map = |v: u8| src(v) + start_len() + value() + f() + res())] a: u8, #[sscanf(filter_map = |v: u8| %s(src(v) + expected() + n() + cap()))] b: u8, #[sscanf(from = u8)] c: u16, "
     "#[sscanf(default = start_len() + src(1) + n() + expected() + remaining() + catcher() + error() + value() + f())] d: u8 }\n"
     "#[derive(::sscanf::FromScanf)]\nenum Fb { #[sscanf(\"-\")] Z(#[sscanf(default = src(expected() + remaining() + start_len() + catcher() + res() + n()))] u8), #[sscanf(\"{}\")] Y(#[sscanf(map = |v: u8| src(v) + expected() + remaining())] u8, #[sscanf(default = remaining() + expected() + value() + src(1))] u8) }" % SOME,
     '::sscanf::sscanf!(if src(input()) == 8 && src_str() == cap() { "1 2 3 -5" } else { "" }, "{Fa} {Fb}{Fb}").ok().map_or(false, |(a, b, c)| match (b, c) { (Fb::Z(b), Fb::Y(c, d)) => (a.a, a.b, a.c, a.d, b, c, d) == (30, 24, 3, 58, 43, 20, 23), _ => false })'),
    ("types with internal names", "#[allow(clippy::upper_case_acronyms)]\nstruct REGEX(u8);\nimpl ::core::str::FromStr for REGEX { type Err = ::core::num::ParseIntError; fn from_str(s: &::core::primitive::str) -> ::core::result::Result<Self, Self::Err> { s.parse().map(|x| Self(x)) } }\n"
     "impl ::sscanf::RegexRepresentation for REGEX { const REGEX: &'static ::core::primitive::str = \"[0-9]\"; }\n"
     "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"<{}>\")]\nstruct Ta(REGEX);", '::sscanf::sscanf!("5<6>", "{}{}", REGEX, Ta).ok().map(|(a, b)| a.0 + b.0.0) == %s(11) && ::sscanf::sscanf_get_regex!("{REGEX}").is_match("7")' % SOME),
    ("constants with internal names", "const NUM_CAPTURES: ::core::primitive::usize = 3;\nstruct Ca<const N: ::core::primitive::usize>(u8);\nimpl<const N: ::core::primitive::usize> ::core::str::FromStr for Ca<N> { type Err = ::core::num::ParseIntError; fn from_str(s: &::core::primitive::str) -> ::core::result::Result<Self, Self::Err> { s.parse().map(|x| Self(x)) } }\n"
     "impl<const N: ::core::primitive::usize> ::sscanf::RegexRepresentation for Ca<N> { const REGEX: &'static ::core::primitive::str = \"[0-9]\"; }\n"
     "#[derive(::sscanf::FromScanf)]\n#[sscanf(\"<{}>\")]\nstruct Cb(Ca<NUM_CAPTURES>);", '::sscanf::sscanf!("5<6>", "{}{}", Ca<NUM_CAPTURES>, Cb).ok().map(|(a, b)| a.0 + b.0.0) == %s(11) && ::sscanf::sscanf_get_regex!("{Ca<NUM_CAPTURES>}").is_match("7")' % SOME),
]

# (name, text with @I for the items and @E for the expression); has to define `pub fn run() -> bool`
PLACES = [
    ("fn", "@I\npub fn run() -> bool { @E }"),
    ("items in fn", "pub fn run() -> bool { @I\n @E }"),
    ("items in block", "pub fn run() -> bool { let x = { @I\n @E }; x }"),
    ("closure", "@I\npub fn run() -> bool { let f = || @E; f() && f() }"),
    ("move closure in thread", "@I\npub fn run() -> bool { ::std::thread::spawn(move || { @E }).join().is_ok_and(|x| x) }"),
    ("const fn pointer", "@I\nconst F: fn() -> bool = || @E;\npub fn run() -> bool { F() }"),
    ("static lazy", "@I\nstatic L: ::std::sync::LazyLock<bool> = ::std::sync::LazyLock::new(|| @E);\npub fn run() -> bool { *L }"),
    ("thread local", "@I\n::std::thread_local! { static T: bool = @E; }\npub fn run() -> bool { T.with(|t| *t) }"),
    ("loop", "@I\npub fn run() -> bool { let mut ok = true; for _ in 0..3 { ok &= @E; } loop { if @E { break ok } else { break false } } }"),
    ("while cond", "@I\npub fn run() -> bool { let mut n = 0; while @E { n += 1; if n == 3 { return true } } false }"),
    ("match", "@I\npub fn run() -> bool { match @E { true if @E => true, _ => false } }"),
    ("generic fn", "@I\nfn g<T, U: ::core::fmt::Debug, const N: usize>(_: T, _: &U) -> bool where T: ::core::clone::Clone { @E }\npub fn run() -> bool { g::<u8, str_, 3>(1, &str_) && g::<bool, u8, 0>(true, &1) }\n#[derive(Debug)] #[allow(non_camel_case_types)] struct str_;"),
    ("generic lifetimes", "@I\nfn g<'a, 'b: 'a, 't, 'src>(_: &'a u8, _: &'b u8, _: &'t u8, _: &'src u8) -> bool { @E }\npub fn run() -> bool { g(&1, &2, &3, &4) }"),
    ("async", "@I\nasync fn g(x: &u8) -> bool { async { let _ = x; }.await; let r = @E; async {}.await; r }\npub fn run() -> bool { let w = ::std::task::Waker::noop(); let mut c = ::std::task::Context::from_waker(&w); "
     "let mut f = ::std::pin::pin!(g(&5)); loop { if let ::std::task::Poll::Ready(x) = ::std::future::Future::poll(f.as_mut(), &mut c) { break x } } }"),
    ("trait", "@I\ntrait Tr { fn go(&self) -> bool { @E } fn stat() -> bool { @E } }\nimpl Tr for u8 {}\nimpl Tr for i8 { fn go(&self) -> bool { !!@E } }\npub fn run() -> bool { 1u8.go() && 1i8.go() && <u8 as Tr>::stat() }"),
    ("impl", "@I\nstruct Own<T>(T);\nimpl<T: ::core::clone::Clone> Own<T> { const C: fn() -> bool = || @E; fn go(self) -> bool { let _ = &self.0; @E } }\npub fn run() -> bool { Own(5).go() && Own::<u8>::C() }"),
    ("unsafe", "@I\nunsafe fn g() -> bool { @E }\npub fn run() -> bool { unsafe { g() && @E } }"),
    ("macro body", "@I\nmacro_rules! mac { () => { @E } }\npub fn run() -> bool { mac!() && mac!() }"),
    ("macro argument", "@I\nmacro_rules! mac { ($e:expr) => { { let x = $e; x && $e } } }\npub fn run() -> bool { mac!(@E) }"),
    ("macro tokens", "macro_rules! mac { ($($t:tt)*) => { $($t)* } }\nmac! { @I\npub fn run() -> bool { mac!(@E) } }"),
    ("macro item", "macro_rules! mac { ($($i:item)*) => { $($i)* } }\nmac! { @I\npub fn run() -> bool { @E } }"),
    ("macro defined in macro", "macro_rules! mac { () => { @I\nmacro_rules! inner_mac { () => { @E } }\npub fn run() -> bool { inner_mac!() } } }\nmac!();"),
    ("assert", "@I\npub fn run() -> bool { assert!(@E, \"{}\", 5); assert_eq!(@E, true); debug_assert!(@E); true }"),
    ("format args", "@I\npub fn run() -> bool { format!(\"{}\", @E) == \"true\" }"),
    ("vec", "@I\npub fn run() -> bool { vec![@E, @E].iter().all(|x| *x) && [@E; 2][1] }"),
    ("test-like panic hook", "@I\npub fn run() -> bool { ::std::panic::catch_unwind(|| @E).is_ok_and(|x| x) }"),
    ("deep module", "mod a { pub mod b { pub mod c { @I\npub fn run() -> bool { @E } } } }\npub use a::b::c::run;"),
    ("imported", "#[allow(unused)] use ::sscanf::*;\n#[allow(unused)] use ::std::{borrow::*, str::FromStr, num::*, path::*, convert::*, string::*};\n@I\npub fn run() -> bool { @E }"),
    ("drop order", "@I\nstruct D;\nimpl ::core::ops::Drop for D { fn drop(&mut self) { assert!(@E); } }\npub fn run() -> bool { let _d = D; true }"),
    ("labeled", "@I\npub fn run() -> bool { 'a: loop { 'src: loop { if @E { break 'a true } else { break 'src } } break false } }"),
    ("let else", "@I\npub fn run() -> bool { let true = @E else { return false }; if let true = @E { true } else { false } }"),
    ("shadowed lets", "@I\npub fn run() -> bool { let (src, regex, cap, value, matcher, e, n, expected, start_len, input, error, f, src_str) = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); "
     "let r = @E; r && src + regex + cap + value + matcher + e + n + expected + start_len + input + error + f + src_str == 91 }"),
    # names in upper case: a lower-case constant or unit struct is a pattern that no `let` in any macro can shadow
    ("consts", "@I\n#[allow(unused)] mod k { pub const REGEX: u8 = 0; pub const NUM_CAPTURES: u8 = 0; pub const WRONG_CAPTURES_HINT: u8 = 0; pub static SRC: u8 = 0; pub static INPUT: () = (); }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("unit structs", "@I\n#[allow(unused)] mod k { #![allow(non_camel_case_types)] pub struct REGEX; pub struct NUM_CAPTURES; pub struct Src; pub struct Value; pub struct Input; }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("traits with lower-case names", "@I\n#[allow(unused, non_camel_case_types)] mod k { pub trait src {} pub trait value {} pub trait input {} pub trait regex {} pub trait cap {} pub struct expected {} pub struct n {} pub enum e {} pub type res = u8; pub mod error {} }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("fns", "@I\n#[allow(unused)] mod k { pub fn src() {} pub fn regex() {} pub fn cap() {} pub fn value() {} pub fn matcher() {} pub fn concatcp() {} pub fn drop() {} pub fn from_str() {} pub fn panic() {} pub fn stringify() {} pub fn expect() {} }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("macros", "#[allow(unused)] mod k {\n%s\n}\n@I\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }" % "\n".join(
        "macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"the user's own macro was used\") } }\npub(crate) use %s;" % (m, m)
        for m in ["regex", "concatcp", "formatcp", "capture", "quote", "parse", "lazy_static", "once_cell", "str_replace", "sscanf_internal"])),
    ("std macros", "%s\n@I\npub fn run() -> bool { @E }" % "\n".join(
        "#[allow(unused_macros)] macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"the user's own macro was used\") } }" % m
        for m in ["panic", "format", "stringify", "concat", "vec", "assert", "assert_eq", "matches", "write", "unreachable", "todo", "cfg", "line", "file", "debug_assert", "debug_assert_eq", "format_args", "print", "eprintln", "dbg", "include_str", "env", "unimplemented", "thread_local", "assert_ne", "const_format", "compile_error"])),
    ("modules", "@I\n#[allow(unused)] mod std { pub mod option { pub enum Option { None } } pub mod result {} }\n#[allow(unused)] mod core {}\n#[allow(unused)] mod alloc {}\n#[allow(unused)] mod sscanf { pub mod errors {} pub mod regex {} }\n#[allow(unused)] mod regex { pub struct Regex; }\n#[allow(unused)] mod const_format {}\n#[allow(unused)] mod lazy_static {}\n#[allow(unused)] mod errors {}\n#[allow(unused)] mod once_cell {}\npub fn run() -> bool { @E }"),
    ("prelude types", "@I\n#[allow(unused)] mod k { pub struct Option; pub struct Result; pub struct String; pub struct Vec; pub struct Box; pub struct Regex; pub struct Error; pub struct LazyLock; pub struct OnceLock; pub struct Lazy; pub struct Cow; pub struct Captures; pub struct SubCaptureMatches; pub struct FromScanfFailedError; }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("prelude values", "@I\n#[allow(unused, non_snake_case)] mod k { #![allow(non_upper_case_globals)] pub fn Ok() {} pub fn Err() {} pub fn Some() {} pub const None: u8 = 0; }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("prelude structs", "@I\n#[allow(unused)] mod k { pub struct Ok; pub struct Err; pub struct Some(pub u8); pub struct None; }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("prelude traits", "@I\n#[allow(unused)] mod k { pub trait From {} pub trait Into {} pub trait TryFrom {} pub trait TryInto {} pub trait Iterator {} pub trait Default {} pub trait FromStr {} pub trait Fn {} pub trait FnOnce {} pub trait Deref {} pub trait Display {} pub trait AsRef {} pub trait ToString {} pub trait ToOwned {} pub trait Clone {} pub trait RegexRepresentation {} pub trait FromScanf {} pub trait Sized_ {} pub trait IntoIterator {} pub trait FromIterator {} pub trait Drop {} }\n"
     "#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("primitive types", "@I\n#[allow(unused, non_camel_case_types)] mod k { pub struct i16; pub struct i64; pub struct f32; pub struct never; }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }"),
    ("all other primitive types", "@I\n#[allow(unused, non_camel_case_types)] mod k { @PRIMITIVES }\n#[allow(unused)] use k::*;\npub fn run() -> ::core::primitive::bool { @E }"),
    ("other primitive types as aliases", "@I\n#[allow(unused, non_camel_case_types)] mod k { @ALIASES }\n#[allow(unused)] use k::*;\npub fn run() -> ::core::primitive::bool { @E }"),
    ("ref method traits", "@I\n#[allow(unused)] mod k { pub trait M { fn next(&self) -> u8 { 0 } fn expect(&self, _: u8) -> u8 { 0 } fn unwrap(&self) -> u8 { 0 } fn count(&self) -> u8 { 0 } fn from_matches() -> u8 { 0 } fn from_str() -> u8 { 0 } fn try_from() -> u8 { 0 } fn from() -> u8 { 0 } fn default() -> u8 { 0 } fn to_owned(&self) -> u8 { 0 } fn into(&self) -> u8 { 0 } } impl<T: ?Sized> M for T {} impl M for str_ {} pub struct str_; }\n"
     "#[allow(unused)] use k::M;\npub fn run() -> bool { @E }".replace(" impl M for str_ {} pub struct str_;", "")),
    ("generic names", "@I\n#[allow(non_camel_case_types)] fn g<src, regex, Result, Option, REGEX, Self_, E, F: ::core::marker::Copy>(_: F, _: (::core::marker::PhantomData<(src, regex, Result, Option)>, ::core::marker::PhantomData<(REGEX, Self_, E)>)) -> bool { @E }\n"
     "pub fn run() -> bool { g::<u8, u8, u8, u8, u8, u8, u8, u8>(1, (::core::marker::PhantomData, ::core::marker::PhantomData)) }"),
    ("const generic", "@I\n#[allow(non_upper_case_globals)] fn g<const SRC: u8, const N: usize, const REGEX: bool>() -> bool { @E }\npub fn run() -> bool { g::<1, 2, true>() }"),
    ("renamed", "#[allow(unused)] extern crate sscanf as other;\n@I\n#[allow(unused)] use other as sscanf;\npub fn run() -> bool { @E }"),
]
# combinations that are not well-formed on their own, or not promised
# the type parameter is the REGEX that is meant; the variables hide the functions, the
# type hides the constant
SKIP = {("generic names", "types with internal names"), ("shadowed lets", "functions with internal names"),
        ("unit structs", "constants with internal names")}

LINTS = [
    ("everything", """//! docs
#![deny(warnings)]
#![forbid(unsafe_code)]
#![deny(missing_docs, unused_qualifications)]
#![deny(unused, nonstandard_style, future_incompatible, rust_2018_idioms)]
"""),
    ("unused_qualifications", "#![deny(unused_qualifications)]\n"),
]

# items of a documented library, with imports that make the full paths of generated code look superfluous
LINTED = [
    ("functions", """
use sscanf::sscanf;
/// d
pub fn a(x: &str) -> Result<u8, sscanf::Error> { sscanf!(x, "{u8}") }
/// d
pub fn b(x: &str) -> Result<(u8, &str), sscanf::Error> { sscanf!(x, "{}{}", u8, str) }
/// d
pub fn c(x: String) -> bool { sscanf!(x, "x").is_ok() }
/// d
pub fn d(x: &str) -> Option<u8> { sscanf!(x, "{:x}", u8).ok() }
/// d
pub fn e(x: &str) -> Option<i8> { sscanf!(x, "{:#o}", i8).ok() }
/// d
pub fn f(x: &str) -> Option<String> { sscanf!(x, "{:/a|b/}", String).ok() }
"""),
    ("imports", """
use sscanf::{sscanf, sscanf_get_regex, sscanf_unescaped, errors::Error, regex::Regex, FromScanf, RegexRepresentation};
use std::{borrow::Cow, convert::TryFrom, str::{self, FromStr}};
/// d
pub fn a<'a>(x: &'a str) -> Result<(Cow<'a, str>, u8), Error> { sscanf!(x, "{} {}", Cow<str>, u8) }
/// d
pub fn b() -> &'static Regex { sscanf_get_regex!("{u8}") }
/// d
pub fn c(x: &str) -> Result<u8, Error> { sscanf_unescaped!(x, "a*{u8}") }
/// d
#[derive(FromScanf, Default)]
#[sscanf("{a} {b} {c} {d} {e}")]
pub struct A {
    /// d
    pub a: u8,
    #[sscanf(map = |x: u8| x)] b: u8,
    #[sscanf(filter_map = |x: u8| Some(x))] c: u8,
    #[sscanf(from = u8)] d: u16,
    #[sscanf(try_from = u16)] e: u8,
    #[sscanf(default)] f: u8,
    #[sscanf(default = 5)] g: u8,
}
/// d
pub fn d(a: A) -> (u8, usize, Option<u8>) {
    let x: Option<u8> = FromStr::from_str("5").ok();
    let _ = u8::try_from(5u16).map(u16::from).map(Box::new);
    (a.b + a.c + a.d as u8 + a.e + a.f + a.g + a.a, A::REGEX.len() + str::from_utf8(b"").map_or(0, str::len), x)
}
"""),
    ("enum", """
use sscanf::FromScanf;
/// d
#[derive(FromScanf, Debug, Clone, PartialEq)]
#[sscanf(autogen = "snake_case")]
#[non_exhaustive]
pub enum E<'a> {
    /// d
    OneTwo,
    /// d
    #[sscanf(skip)]
    Never(std::convert::Infallible),
    /// d
    #[sscanf("{x}-{0}", )]
    Three {
        /// d
        #[sscanf(default)]
        y: Option<()>,
        /// d
        x: &'a str,
        /// d
        z: u8,
    },
    /// d
    #[sscanf(transparent)]
    Four(F),
}
/// d
#[derive(FromScanf, Debug, Clone, Copy, PartialEq)]
#[sscanf("")]
pub struct F;
/// d
#[derive(FromScanf)]
pub enum G {
    /// d
    #[sscanf("g{}")]
    G(u8, #[sscanf(default = 1)] u8),
}
""".replace('"{x}-{0}"', '"{x}-{z}"')),
    ("private and unused", """
use sscanf::FromScanf;
#[derive(FromScanf)]
#[sscanf("{}")]
#[allow(dead_code)]
struct A(u8);
mod inner {
    #[derive(sscanf::FromScanf)]
    #[sscanf("{x}")]
    pub(crate) struct B { pub(crate) x: char }
}
/// d
pub fn a() -> Option<char> { B::from_str("x").ok().map(|b| b.x) }
use inner::B;
"""),
    ("generics", """
use std::{fmt::Debug, marker::PhantomData, str::FromStr, error::Error};
use sscanf::FromScanf;
/// d
#[derive(FromScanf, Debug)]
#[sscanf("{a:/.*?/},{b:/.*/}")]
pub struct A<T: FromStr + 'static, U = u8> where U: FromStr + 'static, <U as FromStr>::Err: Error + 'static, T::Err: Error {
    /// d
    pub a: T,
    /// d
    pub b: U,
}
/// d
#[derive(FromScanf, Debug)]
#[sscanf("{}{}")]
pub struct B<'a, 'b: 'a, T: ?Sized, const N: usize>(
    /// d
    pub &'a str,
    /// d
    pub &'b str,
    /// d
    #[sscanf(default)] pub PhantomData<T>,
    /// d
    #[sscanf(default = [0; N])] pub [u8; N],
);
"""),
    ("attributes", """
use sscanf::FromScanf;
/// d
#[derive(Debug, FromScanf, Clone)]
#[must_use]
#[repr(transparent)]
#[sscanf(format = "{}",)]
#[cfg_attr(all(), allow(clippy::all))]
pub struct A(/** d */ #[allow(missing_docs)] pub u8);
/// d
#[derive(Debug, FromScanf, Clone)]
#[deprecated]
#[sscanf(format_unescaped = "a?{}")]
pub struct B(
    /// d
    pub u8,
);
/// d
#[derive(FromScanf)]
#[sscanf(transparent)]
pub struct C { #[doc(hidden)] pub x: u8 }
""".replace("#[deprecated]\n", "")),
    ("unsafe is not needed", """
/// d
pub fn a(x: &[u8]) -> Option<&str> { std::str::from_utf8(x).ok().and_then(|x| sscanf::sscanf!(x, "{}", str).ok()) }
/// d
pub const fn b() -> fn(&str) -> bool { |x| sscanf::sscanf!(x, "{u8}{u8}{u8}").is_ok() }
/// d
pub static C: fn(&str) -> Option<(u8, char)> = |x| sscanf::sscanf!(x, "{1}{0}", char, u8).ok();
"""),
    ("manual", """
use sscanf::{FromScanf, RegexRepresentation};
/// d
#[derive(Debug)]
pub struct M(String);
impl RegexRepresentation for M { const REGEX: &'static str = "[a-z]+"; }
impl std::str::FromStr for M { type Err = std::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(M(s.to_owned())) } }
/// d
#[derive(FromScanf, Debug)]
#[sscanf("{m}={v:x}")]
pub struct N { #[sscanf(map = |m: M| m.0)] m: String, v: u64 }
/// d
pub fn n(x: &str) -> Option<(String, u64)> { N::from_str(x).map(|n| (n.m, n.v)).ok() }
"""),
]


def module(n, place, use, pre=""):
    name, items, expr = use
    if expr.startswith("OLD"):
        expr = expr[3:]
        pre += "#![allow(deprecated)]\n"
    words = set(re.findall(r"\w+", items + expr))
    prims = [x for x in "bool char u16 u32 u64 u128 i8 i16 i32 i64 i128 isize f32 f64".split() if x not in words]
    text = place[1].replace("@PRIMITIVES", " ".join("pub struct %s;" % x for x in prims)).replace(
        "@ALIASES", " ".join("pub type %s = ::std::rc::Rc<()>;" % x for x in prims))
    text = text.replace("@I", items).replace("@E", "(%s)" % expr if place[0] not in ("macro body",) else expr)
    return "mod m%d {\n%s%s\n}\n" % (n, pre, text)


def run_corpus(d, res, name, cases, edition, toolchain=None, profile="dev", execute=True):
    """cases: (what, module text)"""
    snippets = [c[1] for c in cases]
    footer = "fn main() {\n    let all: &[(usize, fn() -> bool)] = &[%s];\n    for (n, f) in all {\n        let r = std::panic::catch_unwind(|| f());\n        println!(\"{} {}\", n, match r { Ok(true) => \"ok\", Ok(false) => \"wrong\", Err(_) => \"panic\" });\n    }\n}\n" % ", ".join(
        "(%d, m%d::run)" % (n, n) for n in range(len(cases)))
    out = ct.compile_snippets(d, name, snippets, header="#![allow(dead_code, unused_parens, unused_braces)]\n", toolchain=toolchain, edition=edition, cmd="build" if execute else "check", footer=footer,
                              extra=("[profile.dev.package.%s]\ndebug-assertions = false\n" % name if profile == "release" else ""))
    bad = set()
    for n, (c, diags) in enumerate(zip(cases, out.by)):
        res.evaluations += 1
        res.distinct += 1
        res.count("compiled: edition " + edition)
        for g in diags:
            bad.add(n)
            res.violation("compile|%s|%s" % (c[0], g.message.split("\n")[0]), "%s (edition %s, %s)\n%s\n%s" % (c[0], edition, toolchain or d.STABLE, c[1][:3000], g.rendered[:2500]))
    for g in out.rest:
        res.violation("compile|" + g.message.split("\n")[0], g.rendered[:2500])
    if out.rc != 0:
        if not res.violations:
            raise d.Inconclusive("no message: " + out.stderr[-2000:])
        return
    if not execute:
        return
    rc, so, se = d.run([out.exe], d.ROOT, {}, 120)
    seen = {}
    for line in so.splitlines():
        k, _, v = line.partition(" ")
        seen[int(k)] = v
    for n, c in enumerate(cases):
        v = seen.get(n)
        res.count("executed")
        if v != "ok":
            res.violation("run|" + c[0], "%s (edition %s)\n%s\n=> %s (exit status %s)\n%s" % (c[0], edition, c[1][:3000], v, rc, se[-1000:]))
        elif n % 97 == 0:
            res.sample("%s: %s" % (c[0], c[1].replace("\n", " ")[:300]))


def run_lints(d, res, edition, toolchain, profile):
    for what, header in LINTS:
        snippets = ["/// d\npub mod l%d {\n%s}\n" % (n, t[1]) for n, t in enumerate(LINTED)]
        out = ct.compile_snippets(d, "p20l", snippets, header=header, toolchain=toolchain, edition=edition,
                                  extra="[profile.dev.package.p20l]\ndebug-assertions = false\n" if profile == "release" else "")
        for t, diags, text in zip(LINTED, out.by, snippets):
            res.evaluations += 1
            res.distinct += 1
            res.count("compiled with denied lints")
            for g in diags:
                res.violation("lint|%s|%s" % (t[0], g.message.split("\n")[0]), "%s under %s (edition %s, %s, %s)\n%s\n%s" % (
                    t[0], what, edition, toolchain or d.STABLE, profile, text[:3000], g.rendered[:2500]))
        for g in out.rest:
            res.violation("lint|" + g.message.split("\n")[0], g.rendered[:2500])
        if out.rc != 0 and not res.violations:
            raise d.Inconclusive("no message: " + out.stderr[-2000:])


# types of these names are not seen through by the macro of the dependency that joins the regexes (a known finding)
NAMES = ["u8", "usize", "str"]


def run_named(d, res, thorough):
    cases = []
    for name in NAMES:
        for what, item in [("struct", "pub struct %s;" % name), ("alias", "pub type %s = ::std::rc::Rc<()>;" % name)]:
            for u in USES:
                if name not in re.findall(r"\w+", u[1] + u[2]):
                    text = "@I\n#[allow(unused, non_camel_case_types)] mod k { %s }\n#[allow(unused)] use k::*;\npub fn run() -> bool { @E }" % item
                    cases.append((name, what, u, module(len(cases), ("named", text), u)))
    out = ct.compile_snippets(d, "p20n", [c[3] for c in cases], header="#![allow(dead_code, unused_parens, unused_braces)]\n", edition="2021")
    for (name, what, u, text), diags in zip(cases, out.by):
        res.evaluations += 1
        res.distinct += 1
        res.count("compiled: next to a type named like a primitive type of the macro")
        for g in diags:
            if any(m in g.rendered for m in ["__concatcp_inner", "$crate::__priv_", "__cf_osRcTFl4A"]):
                res.violation("a type named %s in scope" % name, "%s next to a %s named %s\n%s" % (u[0], what, name, g.rendered[:2000]))
            else:
                res.violation("named|%s|%s" % (name, g.message), "%s next to a %s named %s\n%s\n%s" % (u[0], what, name, text[:2000], g.rendered[:2000]))
    for g in out.rest:
        res.violation("compile|" + g.message.split("\n")[0], g.rendered[:2500])


def check(d, res):
    thorough = res.tier == "thorough"
    r = ct.rng(d.SEED, "p20")
    everything = [(p, u) for p in PLACES for u in USES if (p[0], u[0]) not in SKIP]

    def some(per_place, per_use):
        keep = set()
        for p in PLACES:
            mine = [i for i, x in enumerate(everything) if x[0] is p]
            keep.update(r.sample(mine, min(len(mine), per_place)))
        for u in USES:
            mine = [i for i, x in enumerate(everything) if x[1] is u]
            keep.update(r.sample(mine, min(len(mine), per_use)))
        return [everything[i] for i in sorted(keep)]

    if thorough:
        runs = [(None, "2021", "dev", everything), (None, "2021", "release", everything), (None, "2018", "dev", everything), (None, "2024", "dev", everything),
                ("stable", "2021", "dev", everything), ("nightly", "2024", "release", everything)]
    else:
        runs = [(None, "2021", "check", everything), (None, "2021", "dev", some(6, 5)), (None, r.choice(["2018", "2024"]), "release", some(3, 3))]
    for toolchain, edition, profile, pairs in runs:
        cases = [("%s in %s" % (u[0], p[0]), module(n, p, u)) for n, (p, u) in enumerate(pairs)]
        run_corpus(d, res, "p20", cases, edition, toolchain, profile, execute=profile != "check")
        if res.violations:
            return
    run_named(d, res, thorough)
    lint_runs = [(None, e, p) for e in ["2018", "2021", "2024"] for p in ["dev", "release"]]
    if thorough:
        lint_runs += [(t, e, p) for t in ["stable", "nightly"] for e in ["2018", "2021", "2024"] for p in ["dev", "release"]]
    for toolchain, edition, profile in lint_runs:
        run_lints(d, res, edition, toolchain, profile)
        if res.violations:
            return
