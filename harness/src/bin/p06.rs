#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::{sscanf, sscanf_unescaped};
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P06.rs"));
}

/// placeholders that are separated by commas
struct Binding {
    hand: Hand,
    /// the type of each placeholder
    slots: &'static [usize],
    /// format, placeholder of each field, type of each field
    fields: Option<(&'static str, &'static [Option<usize>], &'static [usize])>,
}
include!(concat!(env!("OUT_DIR"), "/P06X.rs"));

/// what has to come out, if each type only accepts its own number after the letters
fn want(b: &Binding, parts: &[String]) -> Obs {
    if parts.len() != b.slots.len() {
        return Obs::MatchFailed;
    }
    for (t, s) in b.slots.iter().zip(parts) {
        let digits = s.trim_start_matches(|c: char| c.is_ascii_lowercase());
        if digits.len() == s.len() || !(digits.is_empty() || digits == t.to_string()) {
            return Obs::MatchFailed;
        }
    }
    let show = |k: usize| format!("T{}:{}", b.slots[k], parts[k]);
    match b.fields {
        None => Obs::Ok((0..parts.len()).map(show).collect()),
        Some((_, fields, types)) => Obs::Ok(vec![fields.iter().zip(types).map(|(f, t)| f.map_or(format!("T{t}:"), show)).collect::<Vec<_>>().join(";")]),
    }
}

/// a type that is different for every number
#[derive(Debug, PartialEq)]
struct M<const N: usize>(String);
impl<const N: usize> std::str::FromStr for M<N> {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(M(s.into()))
    }
}
impl<const N: usize> sscanf::RegexRepresentation for M<N> {
    const REGEX: &'static str = "[a-z]";
}
impl<const N: usize> Show for M<N> {
    fn show(&self) -> String {
        format!("M{N}:{}", self.0)
    }
}
type Pair<A, B> = Two<A, B>;
#[derive(Debug, PartialEq)]
struct Two<A, B>(String, std::marker::PhantomData<(A, B)>);
impl<A: 'static, B: 'static> std::str::FromStr for Two<A, B> {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Two(s.into(), std::marker::PhantomData))
    }
}
impl<A, B> sscanf::RegexRepresentation for Two<A, B> {
    const REGEX: &'static str = "[0-9]";
}
impl<A, B> Show for Two<A, B> {
    fn show(&self) -> String {
        format!("{}:{}", std::any::type_name::<(A, B)>(), self.0)
    }
}
fn show_as<T: ShowAll>(r: Result<T, sscanf::Error>) -> Obs {
    obs(r)
}
type E = sscanf::Error;
/// calls whose result has a certain type
fn typed() -> Vec<(Hand, &'static str, Vec<&'static str>)> {
    vec![
        (hand!(|i| { let r: Result<(), E> = sscanf!(i, ""); r }), "", vec![]),
        (hand!(|i| { let r: Result<(), E> = sscanf!(i, "a{{}}b"); r }), "a{}b", vec![]),
        (hand!(|i| { let r: Result<M<0>, E> = sscanf!(i, "{}", M<0>); r }), "a", vec!["M0:a"]),
        (hand!(|i| { let r: Result<M<0>, E> = sscanf!(i, "{0}", M<0>,); r }), "a", vec!["M0:a"]),
        (hand!(|i| { let r: Result<M<7>, E> = sscanf!(i, "{M<7>}"); r }), "a", vec!["M7:a"]),
        (hand!(|i| { let r: Result<(M<0>, M<1>), E> = sscanf!(i, "{}{}", M<0>, M<1>); r }), "ab", vec!["M0:a", "M1:b"]),
        (hand!(|i| { let r: Result<(M<1>, M<0>), E> = sscanf!(i, "{1}{0}", M<0>, M<1>); r }), "ab", vec!["M1:a", "M0:b"]),
        (hand!(|i| { let r: Result<(M<0>, M<0>, M<1>), E> = sscanf!(i, "{0}{}{}", M<0>, M<1>); r }), "abc", vec!["M0:a", "M0:b", "M1:c"]),
        (hand!(|i| { let r: Result<(M<1>, M<0>, M<1>), E> = sscanf!(i, "{1}{}{}", M<0>, M<1>); r }), "abc", vec!["M1:a", "M0:b", "M1:c"]),
        (hand!(|i| { let r: Result<(M<0>, M<2>, M<1>, M<1>), E> = sscanf!(i, "{}{M<2>}{1}{}", M<0>, M<1>); r }), "abcd", vec!["M0:a", "M2:b", "M1:c", "M1:d"]),
        (hand!(|i| { let r: Result<(M<0>, M<0>, M<0>, M<0>), E> = sscanf!(i, "{0}{0}{0}{0}", M<0>); r }), "abcd", vec!["M0:a", "M0:b", "M0:c", "M0:d"]),
        // two digits
        (hand!(|i| { let r: Result<(M<0>, M<1>, M<2>, M<3>, M<4>, M<5>, M<6>, M<7>, M<8>, M<9>, M<10>, M<11>), E> =
            sscanf!(i, "{}{}{}{}{}{}{}{}{}{}{}{}", M<0>, M<1>, M<2>, M<3>, M<4>, M<5>, M<6>, M<7>, M<8>, M<9>, M<10>, M<11>); r }),
            "abcdefghijkl", vec!["M0:a", "M1:b", "M2:c", "M3:d", "M4:e", "M5:f", "M6:g", "M7:h", "M8:i", "M9:j", "M10:k", "M11:l"]),
        (hand!(|i| { let r: Result<(M<11>, M<1>, M<10>, M<0>, M<9>, M<2>, M<3>, M<4>, M<5>, M<6>, M<7>, M<8>), E> =
            sscanf!(i, "{11}{1}{10}{0}{9}{2}{3}{4}{5}{6}{7}{8}", M<0>, M<1>, M<2>, M<3>, M<4>, M<5>, M<6>, M<7>, M<8>, M<9>, M<10>, M<11>); r }),
            "abcdefghijkl", vec!["M11:a", "M1:b", "M10:c", "M0:d", "M9:e", "M2:f", "M3:g", "M4:h", "M5:i", "M6:j", "M7:k", "M8:l"]),
        (hand!(|i| sscanf!(i, "{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{}{20}{}", M<0>, M<1>, M<2>, M<3>, M<4>, M<5>, M<6>, M<7>, M<8>, M<9>, M<10>, M<11>, M<12>, M<13>, M<14>, M<15>, M<16>, M<17>, M<18>, M<19>, M<20>)),
            "abcdefghijklmnopqrstuv", vec!["M0:a", "M1:b", "M2:c", "M3:d", "M4:e", "M5:f", "M6:g", "M7:h", "M8:i", "M9:j", "M10:k", "M11:l", "M12:m", "M13:n", "M14:o", "M15:p", "M16:q", "M17:r", "M18:s", "M19:t", "M20:u", "M20:v"]),
        // types with commas, colons, braces and signs of comparison
        (hand!(|i| { let r: Result<(Two<u8, i8>, M<1>), E> = sscanf!(i, "{}{}", Two<u8, i8>, M<1>); r }), "1a", vec!["(u8, i8):1", "M1:a"]),
        (hand!(|i| { let r: Result<(M<1>, Two<u8, i8>), E> = sscanf!(i, "{1}{0}", Two<u8, i8>, M<1>,); r }), "a1", vec!["M1:a", "(u8, i8):1"]),
        (hand!(|i| { let r: Result<(Two<u8, i8>, Two<i8, u8>), E> = sscanf!(i, "{Two<u8, i8>}{Pair<i8, u8>}"); r }), "12", vec!["(u8, i8):1", "(i8, u8):2"]),
        (hand!(|i| { let r: Result<(Two<(u8, u16), [i8; 3]>, Two<fn(u8, u8) -> bool, &'static str>), E> = sscanf!(i, "{}{}", Two<(u8, u16), [i8; 3]>, Two<fn(u8, u8) -> bool, &'static str>); r }), "12",
            vec!["((u8, u16), [i8; 3]):1", "(fn(u8, u8) -> bool, &str):2"]),
        (hand!(|i| { let r: Result<(Two<Two<u8, i8>, M<2>>, M<3>), E> = sscanf!(i, "{}{}", Two<Two<u8, i8>, M<2>>, M<{ 1 + 2 }>); r }), "1a", vec!["(p06::Two<u8, i8>, p06::M<2>):1", "M3:a"]),
        (hand!(|i| { let r: Result<(M<3>, Two<Two<u8, i8>, u8>), E> = sscanf!(i, "{M<3>}{Two<Two<u8,i8>,u8>}"); r }), "a1", vec!["M3:a", "(p06::Two<u8, i8>, u8):1"]),
        (hand!(|i| { let r: Result<(M<4>, M<5>), E> = sscanf!(i, "{crate::M<4>}{}", self::M<5>); r }), "ab", vec!["M4:a", "M5:b"]),
    ]
}

fn main() {
    quiet_panics();
    watchdog("P06", 60);
    let mut rep = Report::new("P06");
    let plan = plan::plan("P06", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());

    let all = bindings();
    parallel(&mut rep, all.len(), |n, rep| {
        let b = &all[n];
        let name = match b.fields {
            None => b.hand.call.to_string(),
            Some((f, fields, _)) => format!("{} with the format {f:?} and the placeholders {fields:?} in its fields", b.hand.call),
        };
        let mut r = Rng::new(seed(), &format!("binding-{n}"));
        let mut one = |rep: &mut Report, parts: &[String]| {
            let input = parts.join(",");
            rep.count(if b.fields.is_some() { "bindings of fields" } else { "bindings of types" });
            expect(rep, &name, &input, &observe(b.hand.f, &input).0, &want(b, parts));
        };
        let letters: Vec<String> = (0..b.slots.len()).map(|k| ((b'a' + k as u8) as char).to_string()).collect();
        one(rep, &letters);
        one(rep, &b.slots.iter().zip(&letters).map(|(t, l)| format!("{l}{t}")).collect::<Vec<_>>());
        for k in 0..letters.len() {
            for d in 0..10 {
                let mut p = letters.clone();
                p[k] += &d.to_string();
                one(rep, &p);
            }
            let mut p = letters.clone();
            p.remove(k);
            one(rep, &p);
            p.insert(k, "".into());
            one(rep, &p);
            p.insert(k, "x".into());
            one(rep, &p);
        }
        for _ in 0..10 {
            let p: Vec<String> = b.slots.iter().map(|t| { let mut s: String = (0..r.range(1, 3)).map(|_| (b'a' + r.below(26) as u8) as char).collect(); if r.chance(1, 2) { s += &t.to_string(); } s }).collect();
            one(rep, &p);
        }
    });
    for (h, input, want) in typed() {
        rep.count("calls with a certain type of result");
        expect(&mut rep, h.call, input, &observe(h.f, input).0, &ok(&want));
        let more = format!("{input}!");
        expect(&mut rep, h.call, &more, &observe(h.f, &more).0, &Obs::MatchFailed);
    }
    rep.finish();
}
