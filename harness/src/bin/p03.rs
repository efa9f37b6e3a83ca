//! Round trips: what is written with `format!` is parsed back to the same value
#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use std::num::*;

pub struct RtResult {
    text: String,
    ok: bool,
    err: Option<String>,
}
/// a random value. `opt`: it is written with a radix option (no negative numbers)
pub trait Arb: Sized {
    fn arb(r: &mut Rng, opt: bool) -> Self;
}
pub trait Back<O> {
    fn back(&self, o: &O) -> bool;
}
macro_rules! ints {
    ($($t:ident)*) => { $(
        impl Arb for $t {
            fn arb(r: &mut Rng, opt: bool) -> Self {
                let v = match r.below(8) {
                    0 => $t::MAX,
                    1 => $t::MIN,
                    2 => 0,
                    3 => $t::MAX - (r.next() % 3) as $t,
                    4 => 1 << r.below($t::BITS as usize),
                    _ => (r.u128() >> r.below(128)) as $t,
                };
                #[allow(unused_comparisons)]
                if opt && v < 0 { !v } else { v }
            }
        }
        impl Back<$t> for $t { fn back(&self, o: &$t) -> bool { self == o } }
    )* };
}
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! nonzero {
    ($($t:ident $i:ident)*) => { $(
        impl Arb for $t {
            fn arb(r: &mut Rng, opt: bool) -> Self {
                loop { if let Some(v) = $t::new($i::arb(r, opt)) { return v; } }
            }
        }
        impl Back<$t> for $t { fn back(&self, o: &$t) -> bool { self == o } }
    )* };
}
nonzero!(NonZeroU8 u8 NonZeroI32 i32 NonZeroU128 u128 NonZeroIsize isize);
macro_rules! floats {
    ($($t:ident $b:ident)*) => { $(
        impl Arb for $t {
            fn arb(r: &mut Rng, _: bool) -> Self {
                match r.below(12) {
                    0 => $t::MAX, 1 => $t::MIN, 2 => $t::MIN_POSITIVE, 3 => -0.0, 4 => 0.0,
                    5 => $t::INFINITY, 6 => $t::NEG_INFINITY, 7 => $t::NAN,
                    8 => $t::from_bits(r.below(3) as $b + 1),
                    9 => (r.below(2000) as $t - 1000.0) / 8.0,
                    _ => $t::from_bits(r.next() as $b),
                }
            }
        }
        impl Back<$t> for $t {
            fn back(&self, o: &$t) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
        }
    )* };
}
floats!(f32 u32 f64 u64);
impl Arb for bool {
    fn arb(r: &mut Rng, _: bool) -> Self {
        r.chance(1, 2)
    }
}
impl Back<bool> for bool {
    fn back(&self, o: &bool) -> bool {
        self == o
    }
}
impl Arb for char {
    fn arb(r: &mut Rng, _: bool) -> Self {
        loop {
            let c = match r.below(3) {
                0 => char::from_u32(r.below(128) as u32),
                1 => char::from_u32(r.below(0x3000) as u32),
                _ => char::from_u32(r.below(0x110000) as u32),
            };
            match c {
                Some('\n') | None => {}
                Some(c) => return c,
            }
        }
    }
}
impl Back<char> for char {
    fn back(&self, o: &char) -> bool {
        self == o
    }
}
const LETTERS: &[char] = &['a', 'b', 'Z', 'q', '0', '9', '-', '.', 'ü', '中', '🦀', 'e', 'E', 'x', '!', '\u{feff}'];
impl Arb for String {
    fn arb(r: &mut Rng, _: bool) -> Self {
        (0..r.range(1, 9)).map(|_| *r.pick(LETTERS)).collect()
    }
}
impl Back<&str> for String {
    fn back(&self, o: &&str) -> bool {
        self == o
    }
}
impl Back<String> for String {
    fn back(&self, o: &String) -> bool {
        self == o
    }
}
impl Back<std::borrow::Cow<'_, str>> for String {
    fn back(&self, o: &std::borrow::Cow<'_, str>) -> bool {
        self == o
    }
}

mod gen {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/P03.rs"));
}

fn expect<T: std::fmt::Debug, O: std::fmt::Debug>(
    rep: &mut Report,
    what: &str,
    v: &T,
    text: &str,
    got: Result<O, sscanf::Error>,
    same: impl Fn(&T, &O) -> bool,
) {
    rep.eval(spec::hash_str(&format!("{what}\0{text}")), true);
    match got {
        Ok(o) if same(v, &o) => {}
        other => rep.violation(
            format!("{what}|{text}"),
            format!("{v:?} written as {text:?} is parsed by {what} as {other:?}"),
        ),
    }
}

/// `$v` in all forms
macro_rules! int_forms {
    ($rep:ident, $t:ident, $v:expr) => {{
        let v: $t = $v;
        let eq = |a: &$t, b: &$t| a == b;
        let s = format!("{}", v);
        expect($rep, concat!("{", stringify!($t), "}"), &v, &s, sscanf::sscanf!(s, "{}", $t), eq);
        let s = format!("{:+}", v);
        expect($rep, concat!("{", stringify!($t), "}"), &v, &s, sscanf::sscanf!(s, "{}", $t), eq);
        let s = format!("{:?}", v);
        expect($rep, concat!("{", stringify!($t), "} alone by from_str"), &v, &s, <$t as sscanf::FromScanf>::from_str(&s), eq);
        #[allow(unused_comparisons)]
        if v >= 0 {
            let s = format!("{:x}", v);
            expect($rep, concat!("{", stringify!($t), ":x}"), &v, &s, sscanf::sscanf!(s, "{:x}", $t), eq);
            expect($rep, concat!("{", stringify!($t), ":r16}"), &v, &s, sscanf::sscanf!(s, "{:r16}", $t), eq);
            let s = format!("{:X}", v);
            expect($rep, concat!("{", stringify!($t), ":x}"), &v, &s, sscanf::sscanf!(s, "{:x}", $t), eq);
            let s = format!("{:#x}", v);
            expect($rep, concat!("{", stringify!($t), ":x}"), &v, &s, sscanf::sscanf!(s, "{:x}", $t), eq);
            expect($rep, concat!("{", stringify!($t), ":#x}"), &v, &s, sscanf::sscanf!(s, "{:#x}", $t), eq);
            let s = format!("{:#X}", v);
            expect($rep, concat!("{", stringify!($t), ":x#}"), &v, &s, sscanf::sscanf!(s, "{:x#}", $t), eq);
            let s = format!("{:o}", v);
            expect($rep, concat!("{", stringify!($t), ":o}"), &v, &s, sscanf::sscanf!(s, "{:o}", $t), eq);
            expect($rep, concat!("{", stringify!($t), ":r8}"), &v, &s, sscanf::sscanf!(s, "{:r8}", $t), eq);
            let s = format!("{:#o}", v);
            expect($rep, concat!("{", stringify!($t), ":o}"), &v, &s, sscanf::sscanf!(s, "{:o}", $t), eq);
            expect($rep, concat!("{", stringify!($t), ":#o}"), &v, &s, sscanf::sscanf!(s, "{:#o}", $t), eq);
            let s = format!("{:b}", v);
            expect($rep, concat!("{", stringify!($t), ":b}"), &v, &s, sscanf::sscanf!(s, "{:b}", $t), eq);
            expect($rep, concat!("{", stringify!($t), ":r2}"), &v, &s, sscanf::sscanf!(s, "{:r2}", $t), eq);
            let s = format!("{:#b}", v);
            expect($rep, concat!("{", stringify!($t), ":b}"), &v, &s, sscanf::sscanf!(s, "{:b}", $t), eq);
            expect($rep, concat!("{", stringify!($t), ":#b}"), &v, &s, sscanf::sscanf!(s, "{:#b}", $t), eq);
        }
    }};
}
macro_rules! int_type {
    ($rep:ident, $r:ident, $n:expr, $($t:ident $nz:ident)*) => { $({
        let mut values: Vec<$t> = vec![];
        if $t::BITS <= if thorough() { 16 } else { 8 } {
            values.extend($t::MIN..=$t::MAX);
        } else {
            for i in 0..300 {
                values.extend([$t::MAX - i as $t, $t::MIN + i as $t, i as $t]);
            }
            // around every power of every radix
            for radix in [2u8, 8, 10, 16] {
                let mut p: $t = 1;
                while let Some(next) = p.checked_mul(radix as $t) {
                    p = next;
                    values.extend([p - 1, p, p + 1]);
                    #[allow(unused_comparisons)]
                    if $t::MIN < 0 { values.extend([(0 as $t).wrapping_sub(p), (0 as $t).wrapping_sub(p) - 1]); }
                }
            }
            for _ in 0..$n { values.push(<$t as Arb>::arb($r, false)); }
        }
        for v in values {
            int_forms!($rep, $t, v);
            if let Some(z) = $nz::new(v) {
                let s = format!("{}", z);
                expect($rep, concat!("{", stringify!($nz), "}"), &z, &s, sscanf::sscanf!(s, "{}", $nz), |a, b| a == b);
                let s = format!("<{:?}>", z);
                expect($rep, concat!("<{", stringify!($nz), "}>"), &z, &s, sscanf::sscanf!(s, "<{}>", $nz), |a, b| a == b);
            }
        }
        $rep.count(concat!("types ", stringify!($t)));
    })* };
}
macro_rules! float_type {
    ($rep:ident, $r:ident, $n:expr, $($t:ident $b:ident)*) => { $({
        let mut values: Vec<$t> = vec![
            0.0, -0.0, 1.0, 0.1, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::EPSILON, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, -$t::NAN,
            $t::from_bits(1), $t::MAX_EXP as $t, 1e7, 1e15, 1e16, 1e17, 1e-5, 1e-7, 123456789.0,
        ];
        for e in 0..($t::MAX_EXP as i32 * 2) {
            values.push($t::from_bits((e as $b) << ($t::MANTISSA_DIGITS - 1)));
            values.push(-$t::from_bits(((e as $b) << ($t::MANTISSA_DIGITS - 1)) | 1));
        }
        for _ in 0..$n { values.push(<$t as Arb>::arb($r, false)); }
        for v in values {
            let same = |a: &$t, b: &$t| a.back(b);
            for s in [format!("{}", v), format!("{:?}", v), format!("{:e}", v), format!("{:E}", v), format!("{:+}", v), format!("{:+e}", v)] {
                expect($rep, concat!("{", stringify!($t), "}"), &v, &s, sscanf::sscanf!(s, "{}", $t), same);
                let s = format!("{s},");
                expect($rep, concat!("{", stringify!($t), "},"), &v, &s, sscanf::sscanf!(s, "{},", $t), same);
            }
        }
    })* };
}

fn main() {
    quiet_panics();
    watchdog("P03", 60);
    let mut report = Report::new("P03");
    let rep = &mut report;
    let mut rng = Rng::new(seed(), "p03");
    let r = &mut rng;
    let n = tiered(300, 20000);
    int_type!(rep, r, n, u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64 u128 NonZeroU128 usize NonZeroUsize
        i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize);
    float_type!(rep, r, tiered(2000, 200000), f32 u32 f64 u64);
    // every character
    for c in '\0'..=char::MAX {
        if c == '\n' {
            continue;
        }
        let mut b = [0; 4];
        let s: &str = c.encode_utf8(&mut b);
        expect(rep, "{char}", &c, s, sscanf::sscanf!(s, "{char}"), |a, b| a == b);
        if (c as u32) % 16 == 0 || (c as u32) < 0x300 {
            expect(rep, "{str} of a char", &s, s, sscanf::sscanf!(s, "{str}"), |a, b| a == b);
        }
    }
    for v in [true, false] {
        let s = format!("{v}");
        expect(rep, "{bool}", &v, &s, sscanf::sscanf!(s, "{bool}"), |a, b| a == b);
        let s = format!("is {v:?}!");
        expect(rep, "is {bool}!", &v, &s, sscanf::sscanf!(s, "is {bool}!"), |a, b| a == b);
    }
    // strings of all kinds of characters
    for _ in 0..tiered(3000, 60000) {
        let n = if r.chance(1, 10) { r.range(1, 3000) } else { r.range(1, 20) };
        let v: String = (0..n).map(|_| char::arb(r, false)).collect();
        expect(rep, "{str}", &v, &v, sscanf::sscanf!(v, "{str}"), |a, b| a == b);
        expect(rep, "{String}", &v, &v, sscanf::sscanf!(v, "{String}"), |a, b| a == b);
        expect(rep, "{Cow<str>}", &v, &v, sscanf::sscanf!(v, "{std::borrow::Cow<str>}"), |a, b| a == b);
        let p = std::path::PathBuf::from(&v);
        expect(rep, "{PathBuf}", &p, &v, sscanf::sscanf!(v, "{std::path::PathBuf}"), |a, b| a.as_os_str() == b.as_os_str());
        let s = format!("{{{v}}}");
        expect(rep, "{{{str}}}", &v, &s, sscanf::sscanf!(s, "{{{str}}}"), |a, b| a == b);
        let n = usize::arb(r, false);
        let s = format!("{n:x}");
        expect(rep, "{HexNumber}", &n, &s, sscanf::sscanf!(s, "{sscanf::HexNumber}"), |a, b| *b == *a);
        let s = format!("{n:#X}");
        let s = s.replace("0x", if r.chance(1, 2) { "0x" } else { "0X" });
        expect(rep, "{HexNumber}", &n, &s, sscanf::sscanf!(s, "{sscanf::HexNumber}"), |a, b| *b == *a);
        let f = f64::arb(r, false);
        let s = format!("{f:?}");
        expect(rep, "{FullF64}", &f, &s, sscanf::sscanf!(s, "{sscanf::FullF64}"), |a, b| a.back(&b.0));
        let f = f32::arb(r, false);
        let s = format!("{f:?}");
        expect(rep, "{FullF32}", &f, &s, sscanf::sscanf!(s, "{sscanf::FullF32}"), |a, b| a.back(&b.0));
    }
    // generated formats with several values, and derived types
    let runs = tiered(150, 1500);
    parallel(rep, gen::RT.len(), |i, rep| {
        let mut r = Rng::new(seed(), &format!("rt-{i}"));
        for _ in 0..runs {
            let x = caught(|| gen::RT[i](&mut r));
            match x {
                Ok(x) => {
                    rep.eval(spec::hash_str(&format!("{i}\0{}", x.text)), true);
                    rep.count("generated round trips");
                    if !x.ok {
                        rep.violation(
                            format!("rt_{i}|{}", x.text),
                            format!("round trip {i} of the generated formats (VERIF_SEED={}): {:?} is parsed back to a different value ({:?})", seed(), x.text, x.err),
                        );
                    } else if i % 97 == 0 {
                        rep.sample(|| format!("round trip of {:?}", x.text));
                    }
                }
                Err(p) => rep.violation(format!("rt_{i}|panic"), format!("round trip {i} panicked: {p}")),
            }
        }
    });
    report.finish();
}
