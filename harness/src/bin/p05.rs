#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::{sscanf, FromScanf, FullF32, FullF64, HexNumber};
use std::num::*;
use std::path::PathBuf;
use std::borrow::Cow;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P05.rs"));
}
/// how a text of this type has to look, independent of the model
fn int_syntax(s: &str, signed: bool, digits: usize, nonzero: bool) -> bool {
    let mut c = s.chars().peekable();
    if matches!(c.peek(), Some('+')) || (signed && matches!(c.peek(), Some('-'))) {
        c.next();
    }
    let d: Vec<char> = c.collect();
    !d.is_empty()
        && d.len() <= digits
        && d.iter().all(|c| monlib::re::is_udigit(*c))
        && !(nonzero && !('1'..='9').contains(&d[0]))
}
fn std_as<T: std::str::FromStr + Show>(s: &str, syntax: bool) -> Obs {
    if !syntax {
        return Obs::MatchFailed;
    }
    match s.parse::<T>() {
        Ok(v) => Obs::Ok(vec![v.show()]),
        Err(_) => Obs::ParsingFailed(String::new()),
    }
}
struct Type {
    name: &'static str,
    calls: Vec<Hand>,
    oracle: Box<dyn Fn(&str) -> Obs + Sync>,
    alphabet: &'static str,
    len: usize,
    words: Vec<String>,
}
macro_rules! int {
    ($v:ident, $($t:ident $d:literal $nz:literal),*) => { $( {
        let signed = stringify!($t).starts_with('i') || stringify!($t).starts_with("NonZeroI");
        let mut words = vec![];
        for w in ["0", "1", "9", "5", "10", "12", "99"] {
            for n in 1..=42usize {
                let s: String = w.chars().cycle().take(n).collect();
                words.push(s.clone());
                words.push(format!("-{s}"));
                words.push(format!("+{s}"));
                words.push(format!("0{s}"));
            }
        }
        let v = [<$t>::MAX.to_string(), <$t>::MIN.to_string()];
        for m in v {
            let neg = m.starts_with('-');
            let d: Vec<u8> = m.trim_start_matches('-').bytes().collect();
            // decimal neighbours, digit by digit
            for i in 0..d.len() {
                for x in b'0'..=b'9' {
                    let mut e = d.clone();
                    e[i] = x;
                    let e = String::from_utf8(e).unwrap();
                    for p in ["", "-", "+", "0", "00", "-0", "+0"] {
                        words.push(format!("{p}{e}"));
                    }
                    words.push(format!("{e}0"));
                    words.push(format!("-{e}0"));
                }
            }
        }
        $v.push(Type {
            name: stringify!($t),
            calls: vec![
                hand!(|i| sscanf!(i, "{}", $t)),
                hand!(|i| sscanf!(i, "{0}", $t)),
            ],
            oracle: Box::new(move |s| std_as::<$t>(s, int_syntax(s, signed, $d, $nz))),
            alphabet: "0129+-a .\u{ff11}\u{663}",
            len: 4,
            words,
        });
    } )* };
}
fn main() {
    quiet_panics();
    watchdog("P05", 60);
    let mut rep = Report::new("P05");
    let plan = plan::plan("P05", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());
    any_text(&mut rep, &plan, gen::SITES);

    let mut types: Vec<Type> = vec![];
    types.extend(ints::types());
    let words = |l: &[&str]| -> Vec<String> { l.iter().map(|s| s.to_string()).collect() };
    let float_words = || {
        let mut v = words(&[
            "1e308", "1e309", "-1e309", "1e-324", "5e-324", "4.9e-324", "2.4e-324", "1e38", "3.5e38", "1e-45", "1e-46", "1.7976931348623157e308",
            "1.7976931348623159e308", "0.1e1", "00000000001", "-0", "-0.0", "+.5", "-5.", ".", "+.", "e5", ".e5", "1e", "1e+", "1e+-5", "1e5.0", "NaN", "nan", "-nan",
            "+NAN", "inf", "INF", "Infinity", "iNfInItY", "infinit", "infinityy", "in", "infi", "na", "nann", "i", "0x1", "1_0", "1f32", "1e400000000000000000000",
            "\u{131}nf", "ınfinity", "ſ", "1 ", " 1", "1\n", "\u{ff11}", "1.\u{ff11}", "1e\u{ff11}", "+-1", "--1", "1..", "1.2.3", "1,5", "∞",
            "9007199254740993", "16777217", "0.30000000000000004", "123456789012345678901234567890.5", "1E5", "1e05", "1E+05", "1e-05",
        ]);
        v.push("1".repeat(400));
        v.push(format!("0.{}1", "0".repeat(400)));
        v.push(format!("{}e-400", "1".repeat(400)));
        v
    };
    // what std reads, except that its digits are ASCII only and those of the regex are not
    fn float<T: std::str::FromStr + Show>(s: &str) -> Obs {
        match s.parse::<T>() {
            Ok(v) => Obs::Ok(vec![v.show()]),
            Err(_) => {
                let ascii: String = s.chars().map(|c| if monlib::re::is_udigit(c) { '1' } else { c }).collect();
                match ascii.parse::<f64>() {
                    Ok(_) => Obs::ParsingFailed(String::new()),
                    Err(_) => Obs::MatchFailed,
                }
            }
        }
    }
    macro_rules! float_type {
        ($t:ident, $len:expr) => {
            types.push(Type {
                name: stringify!($t),
                calls: vec![hand!(|i| sscanf!(i, "{}", $t)), hand!(|i| sscanf!(i, "{0}", $t))],
                oracle: Box::new(float::<$t>),
                alphabet: "019.+-eEinfaty",
                len: $len,
                words: float_words(),
            })
        };
    }
    float_type!(f64, tiered(4, 5));
    float_type!(f32, tiered(4, 5));
    float_type!(FullF64, 3);
    float_type!(FullF32, 3);
    types.push(Type {
        name: "bool",
        calls: vec![hand!(|i| sscanf!(i, "{bool}")), hand!(|i| sscanf!(i, "{}", bool))],
        oracle: Box::new(|s| match s {
            "true" => ok(&["bool:true"]),
            "false" => ok(&["bool:false"]),
            _ => Obs::MatchFailed,
        }),
        alphabet: "truefals1",
        len: 5,
        words: words(&["True", "TRUE", "trues", " true", "true ", "true\n", "truefalse", "ﬁ", "falſe", "1", "0", "yes"]),
    });
    types.push(Type {
        name: "HexNumber",
        calls: vec![hand!(|i| sscanf!(i, "{HexNumber}")), hand!(|i| sscanf!(i, "{}", HexNumber))],
        oracle: Box::new(|s| {
            let d = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")).unwrap_or(s);
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_hexdigit()) {
                return Obs::MatchFailed;
            }
            match usize::from_str_radix(d, 16) {
                Ok(v) => Obs::Ok(vec![format!("Hex:{v}")]),
                Err(_) => Obs::ParsingFailed(String::new()),
            }
        }),
        alphabet: "0fFgxX1+-",
        len: 5,
        words: words(&["ffffffffffffffff", "10000000000000000", "0xffffffffffffffff", "0x0ffffffffffffffff", "000000000000000000000001"]),
    });
    let line = |tag: &'static str| move |s: &str| if s.is_empty() || s.contains('\n') { Obs::MatchFailed } else { Obs::Ok(vec![format!("{tag}:{s}")]) };
    macro_rules! text_type {
        ($n:expr, $tag:expr, $($c:expr),*) => {
            types.push(Type { name: $n, calls: vec![$($c),*], oracle: Box::new(line($tag)), alphabet: "a\n\r\0 \u{301}\u{2028}", len: 4, words: vec![] })
        };
    }
    text_type!("str", "str@0", hand!(|i| sscanf!(i, "{str}")), hand!(|i| sscanf!(i, "{&str}")), hand!(|i| sscanf!(i, "{}", &str)), hand!(|i| sscanf!(i, "{}", str)));
    text_type!("Cow", "cow@0", hand!(|i| sscanf!(i, "{Cow<str>}")), hand!(|i| sscanf!(i, "{}", std::borrow::Cow<'_, str>)));
    text_type!("String", "string", hand!(|i| sscanf!(i, "{String}")), hand!(|i| sscanf!(i, "{}", std::string::String)));
    text_type!("PathBuf", "path", hand!(|i| sscanf!(i, "{std::path::PathBuf}")), hand!(|i| sscanf!(i, "{}", PathBuf)));
    types.push(Type {
        name: "char",
        calls: vec![hand!(|i| sscanf!(i, "{char}")), hand!(|i| sscanf!(i, "{}", char))],
        oracle: Box::new(|s| {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(x), None) if x != '\n' => Obs::Ok(vec![format!("char:{x}")]),
                _ => Obs::MatchFailed,
            }
        }),
        alphabet: "a\n\r\0é\u{301}🦀",
        len: 4,
        words: vec![],
    });

    parallel(&mut rep, types.len(), |k, rep| {
        let t = &types[k];
        let mut one = |rep: &mut Report, s: &str| {
            let want = (t.oracle)(s);
            for c in &t.calls {
                let got = observe(c.f, s).0;
                expect(rep, c.call, s, &got, &want);
            }
            rep.count(&format!("type {}", t.name));
        };
        all_strings(t.alphabet, t.len, &mut |s| one(rep, s));
        let mut r = Rng::new(seed(), &format!("words-{k}"));
        for w in &t.words {
            one(rep, w);
        }
        for _ in 0..tiered(200, 3000) {
            if !t.words.is_empty() {
                let w: &String = r.pick(&t.words[..]);
                let s = monlib::gen::mutate(w, &mut r);
                one(rep, &s);
            }
        }
        // every character, alone and between others
        let text = matches!(t.name, "char" | "str" | "String" | "PathBuf" | "Cow");
        for c in (0..0x110000u32).filter_map(char::from_u32) {
            let n = c as u32;
            if !(thorough() || n < 0x3000 || (0xa600..0xac00).contains(&n) || (0xf900..0x12000).contains(&n) || n % 64 == seed() as u32 % 64 || (text && n % 8 == 0)) {
                continue;
            }
            one(rep, &c.to_string());
            if text || n < 0x800 {
                one(rep, &format!("1{c}"));
                one(rep, &format!("{c}1"));
            }
        }
        rep.sample(|| format!("{}: exhaustive up to length {} over {:?}, {} words", t.name, t.len, t.alphabet, t.words.len()));
    });

    // the wrappers behave like what they wrap
    for s in ["0", "1.5", "-2e3", "inf", "1e400"] {
        let a = sscanf!(s, "{FullF64}").unwrap();
        let b = sscanf!(s, "{f64}").unwrap();
        let same = a == b && b == a && *a == b && a.0 == b && { let mut c = a; *c += 1.0; *c == b + 1.0 };
        let a32 = sscanf!(s, "{FullF32}").unwrap();
        let b32 = sscanf!(s, "{f32}").unwrap();
        let same = same && a32 == b32 && b32 == a32 && *a32 == b32 && { let mut c = a32; *c += 1.0; *c == b32 + 1.0 };
        rep.eval(spec::hash_str(s), true);
        if !same {
            rep.violation(format!("wrapper|{s}"), format!("FullF32/FullF64 compare differently from the floats in them, on {s:?}"));
        }
    }
    for s in ["0", "ff", "0x10", "0XdeadBEEF"] {
        let a = sscanf!(s, "{HexNumber}").unwrap();
        let b = usize::from_str_radix(s.trim_start_matches("0x").trim_start_matches("0X"), 16).unwrap();
        rep.eval(spec::hash_str(s), true);
        if !(a == b && b == a && *a == b && a != b + 1 && b + 1 != a && { let mut c = a; *c += 1; *c == b + 1 }) {
            rep.violation(format!("wrapper|{s}"), format!("HexNumber compares differently from the number in it, on {s:?}"));
        }
    }
    rep.finish();
}
mod ints {
    use super::*;
    pub fn types() -> Vec<Type> {
        let mut v = vec![];
        int!(v, u8 3 false, u16 5 false, u32 10 false, u64 20 false, u128 39 false, usize 20 false);
        int!(v, i8 3 false, i16 5 false, i32 10 false, i64 20 false, i128 39 false, isize 20 false);
        int!(v, NonZeroU8 3 true, NonZeroU16 5 true, NonZeroU32 10 true, NonZeroU64 20 true, NonZeroU128 39 true, NonZeroUsize 20 true);
        int!(v, NonZeroI8 3 true, NonZeroI16 5 true, NonZeroI32 10 true, NonZeroI64 20 true, NonZeroI128 39 true, NonZeroIsize 20 true);
        v
    }
}
