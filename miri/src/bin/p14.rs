//! Run by Miri: calls of every kind on ordinary and hostile inputs. Argument: which group of calls
#![allow(dead_code)]
use sscanf::{sscanf, sscanf_unescaped, FromScanf, FullF64, HexNumber, RegexRepresentation};
use std::borrow::Cow;

#[derive(FromScanf, Debug)]
#[sscanf("{b:/[ab]+/}={a}")]
struct Kv<'x> {
    a: bool,
    b: &'x str,
    #[sscanf(default = 3)]
    c: u8,
}
#[derive(FromScanf, Debug)]
enum E {
    #[sscanf("p{}{}")]
    P(#[sscanf(filter_map = |x: bool| x.then_some(1))] u8, bool),
    #[sscanf("q{x:/[0-9]/}")]
    Q { x: i8 },
    #[sscanf("r")]
    R,
}
#[derive(FromScanf, Debug)]
#[sscanf("<{}|{}>")]
struct Nest(E, E);
#[derive(Debug)]
#[allow(dead_code)]
struct Manual<'t>(&'t str, Option<&'t str>);
impl RegexRepresentation for Manual<'_> {
    const REGEX: &'static str = "([ab])(c)?";
}
impl<'t> FromScanf<'t> for Manual<'t> {
    type Err = std::fmt::Error;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {
        src.next().unwrap();
        let a = src.next().unwrap().unwrap().as_str();
        Ok(Manual(a, src.next().unwrap().map(|m| m.as_str())))
    }
}
fn show<T: std::fmt::Debug>(n: &mut usize, input: &str, r: Result<T, sscanf::Error>) -> bool {
    *n += 1;
    match r {
        Ok(v) => {
            assert!(!format!("{v:?}").is_empty(), "{input}");
            true
        }
        Err(e) => {
            assert!(!format!("{e} {e:?} {e:#?}").is_empty());
            let mut s = std::error::Error::source(&e);
            while let Some(x) = s {
                assert!(!x.to_string().is_empty());
                s = x.source();
            }
            false
        }
    }
}
fn main() {
    let group: usize = std::env::args().nth(1).unwrap().parse().expect("not a group");
    let mut n = 0;
    let mut ok = 0;
    macro_rules! run {
        ([$($i:expr),* $(,)?], |$x:ident| $e:expr) => {
            for $x in [$($i),*, "", "\0", "é🦀"] {
                let $x: &str = &String::from($x);
                if show(&mut n, $x, $e) { ok += 1 }
            }
        };
    }
    match group {
        0 => {
            run!(["5", "255", "256", "+1", "-1"], |i| sscanf!(i, "{u8}"));
            run!(["-80", "7f", "0x1", "ff"], |i| sscanf!(i, "{:x}", i8));
        }
        1 => {
            run!(["ab=true", "b=false", "=true", "ab=tru"], |i| sscanf!(i, "{Kv}"));
            run!(["ab=true", "b=false", "=true", "ab=tru"], |i| Kv::from_str(i));
        }
        2 => {
            run!(["ptruefalse", "pfalsetrue", "q5", "r", "s"], |i| E::from_str(i));
            run!(["<q5|ptruefalse>", "<r|r>", "<pfalsetrue|r>", "<|>"], |i| sscanf!(i, "{Nest}"));
        }
        3 => {
            run!(["1.5", "-infinity", "1e", "e"], |i| sscanf!(i, "{}", FullF64));
            run!(["a", "bc", "c", "abc"], |i| sscanf!(i, "{Manual}"));
            run!(["a-b", "bc-a", "c", "abc"], |i| sscanf!(i, "{0}-{0}", Manual));
        }
        4 => {
            run!(["1e5", "-.5", "inf", "NaN", "1.7976931348623157e999"], |i| sscanf!(i, "{f64}"));
            run!(["0b1", "-0b10000000", "0b111111111", "0b"], |i| sscanf!(i, "{:#b}", i8));
        }
        5 => {
            run!(["0xfF", "10", "0x", "-0x80"], |i| sscanf!(i, "{}", HexNumber));
            run!(["ab", "ba", "a"], |i| sscanf!(i, "{:/[ab]/}{:/[ab]*?/}", Cow<str>, str));
        }
        6 => {
            run!(["1zz", "zzzz", "-1", "+z"], |i| sscanf!(i, "{:r36}", i16));
            run!(["xaay", "x", "y", "xa"], |i| sscanf_unescaped!(i, "x(?:a)*{:/y?/}", String));
        }
        _ => {
            run!(["a.*{}", "a", "{}"], |i| sscanf!(i, "a.*{{}}"));
            run!(["0", "1", "-1", "300"], |i| sscanf!(i, "{}", std::num::NonZeroI8));
        }
    }
    assert!(ok > 1 && ok < n, "{ok} of {n}");
    println!("OBSERVED {n}");
}
