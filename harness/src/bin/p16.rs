#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::FromScanf;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P16.rs"));
}

/// value and events that a call has to have on an input
type Want = (Obs, Vec<String>);
struct Logged {
    call: &'static str,
    f: fn(&str) -> Obs,
    want: fn(&str) -> Want,
    inputs: &'static [&'static str],
}
macro_rules! logged {
    ([$($input:expr),* $(,)?], |$i:ident| $e:expr, |$w:ident| $want:expr) => {
        Logged { call: stringify!($e), f: |$i: &str| obs($e), want: |$w: &str| $want, inputs: &[$($input),*] }
    };
}
/// The events of conversions of these types from these texts, up to the first failure
fn conv(mut events: Vec<String>, parts: &[(&str, Option<&str>)]) -> Want {
    let mut out = vec![];
    for (t, s) in parts {
        let Some(s) = s else { continue };
        if let Some(l) = t.strip_prefix('=') {
            // no conversion is logged
            out.push(format!("{l}{s}"));
            continue;
        }
        events.push(format!("{t}({s})"));
        if s.contains('X') {
            return (Obs::ParsingFailed(String::new()), events);
        }
        out.push(format!("{t}:{s}"));
    }
    (Obs::Ok(out), events)
}
fn by(re: &'static str, s: &str, first: &[&str], types: &[&'static str]) -> Want {
    let first: Vec<String> = first.iter().map(|s| s.to_string()).collect();
    match run::groups(re, s) {
        None => (Obs::MatchFailed, first),
        Some(g) => {
            assert_eq!(g.len(), types.len() + 1);
            let parts: Vec<_> = types.iter().copied().zip(g[1..].iter().copied()).collect();
            conv(first, &parts)
        }
    }
}
fn ev(s: &str) {
    log(s.to_string());
}

struct Noisy(String);
impl std::ops::Deref for Noisy {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl Drop for Noisy {
    fn drop(&mut self) {
        ev("dropped");
    }
}
fn make(s: &str) -> Noisy {
    ev("made");
    Noisy(s.to_string())
}

#[derive(FromScanf)]
#[sscanf("{b}-{a};")]
struct Pair {
    a: L0,
    b: L1,
    #[sscanf(default = { ev("default c"); 1 })]
    c: u8,
}
impl Show for Pair {
    fn show(&self) -> String {
        format!("pair {} {} {}", self.b.0, self.a.0, self.c)
    }
}
#[derive(FromScanf)]
enum Choice {
    #[sscanf("a{}{}", )]
    A(L0, L1, #[sscanf(default = { ev("default A"); 1 })] u8),
    #[sscanf("b{:/[^,]*/}")]
    B(L2),
    #[sscanf("a{}!")]
    C(#[sscanf(map = |x: L3| { ev("map C"); x.0 })] String, #[sscanf(default = { ev("default C"); 1 })] u8),
    #[sscanf("d{x}{y}")]
    D {
        #[sscanf(filter_map = |x: char| { ev("filter y"); if x == 'N' { None } else { Some(x) } })]
        y: char,
        #[sscanf(filter_map = |x: char| { ev("filter x"); if x == 'N' { None } else { Some(x) } })]
        x: char,
    },
    #[sscanf(skip)]
    E(NoDefault),
}
struct NoDefault;
impl Show for Choice {
    fn show(&self) -> String {
        match self {
            Choice::A(a, b, c) => format!("A {} {} {c}", a.0, b.0),
            Choice::B(a) => format!("B {}", a.0),
            Choice::C(a, c) => format!("C {a} {c}"),
            Choice::D { x, y } => format!("D {x} {y}"),
            Choice::E(_) => "E".to_string(),
        }
    }
}
fn fail() -> Obs {
    Obs::ParsingFailed(String::new())
}
fn one(s: String) -> Obs {
    Obs::Ok(vec![s])
}
/// events and result of Choice on a text
fn choice(s: &str) -> Want {
    let mut log = vec![];
    // a: both variants start with the letter, A is tried first
    if let Some(g) = run::groups("a([a-zA-Z0-9]+)([a-zA-Z0-9]+)", s) {
        let (a, b) = (g[1].unwrap(), g[2].unwrap());
        log.push(format!("L0({a})"));
        if a.contains('X') {
            return (fail(), log);
        }
        log.push(format!("L1({b})"));
        if b.contains('X') {
            return (fail(), log);
        }
        log.push("default A".into());
        return (one(format!("A {a} {b} 1")), log);
    }
    if let Some(g) = run::groups("b([^,]*)", s) {
        let a = g[1].unwrap();
        log.push(format!("L2({a})"));
        return (if a.contains('X') { fail() } else { one(format!("B {a}")) }, log);
    }
    if let Some(g) = run::groups("a([a-zA-Z0-9]+)!", s) {
        let a = g[1].unwrap();
        log.push(format!("L3({a})"));
        if a.contains('X') {
            return (fail(), log);
        }
        log.push("map C".into());
        log.push("default C".into());
        return (one(format!("C {a} 1")), log);
    }
    if let Some(g) = run::groups("d(.)(.)", s) {
        let (x, y) = (g[1].unwrap(), g[2].unwrap());
        log.push("filter x".into());
        if x == "N" {
            return (fail(), log);
        }
        log.push("filter y".into());
        if y == "N" {
            return (fail(), log);
        }
        return (one(format!("D {x} {y}")), log);
    }
    (Obs::MatchFailed, log)
}
fn pair(s: &str) -> Want {
    match run::groups("([a-zA-Z0-9]+)-([a-zA-Z0-9]+);", s) {
        None => (Obs::MatchFailed, vec![]),
        Some(g) => {
            let (b, a) = (g[1].unwrap(), g[2].unwrap());
            let mut log = vec![format!("L1({b})")];
            if b.contains('X') {
                return (fail(), log);
            }
            log.push(format!("L0({a})"));
            if a.contains('X') {
                return (fail(), log);
            }
            log.push("default c".into());
            (one(format!("pair {b} {a} 1")), log)
        }
    }
}
fn then(mut first: Vec<&str>, w: Want, last: &[&str]) -> Want {
    let mut l: Vec<String> = first.into_iter().map(String::from).collect();
    l.extend(w.1);
    l.extend(last.iter().map(|s| s.to_string()));
    (w.0, l)
}

fn logged_cases() -> Vec<Logged> {
    vec![
        // texts that only a custom regex lets through are given to the conversion as they are
        logged!([" a ,X ", "X,a", " X, X ", ",", "a,b"], |i| sscanf::sscanf!(i, "{:/[^,]*/},{:/[^,]*/}", L0, L1), |i| by("([^,]*),([^,]*)", i, &[], &["L0", "L1"])),
        logged!([" X ", "\tX\n", "X", " "], |i| sscanf::sscanf!(i, "{L0:/(?s).*/}"), |i| by("((?s:.*))", i, &[], &["L0"])),
        logged!(["0XFF", "0xff", "X", "a"], |i| sscanf::sscanf!(i, "{:/[0-9a-zA-Z]*/}", L4), |i| by("([0-9a-zA-Z]*)", i, &[], &["L4"])),
        logged!(["+X", "-X", "+1"], |i| sscanf::sscanf!(i, "{L4:/[-+]?[0-9X]*/}"), |i| by("([-+]?[0-9X]*)", i, &[], &["L4"])),
        // the input
        logged!(["a", "X", "", "ab"], |i| sscanf::sscanf!({ ev("input"); i }, "{L0}"), |i| by("([a-zA-Z0-9]+)", i, &["input"], &["L0"])),
        logged!(["a", "", "ab"], |i| sscanf::sscanf!({ ev("input"); i }, "a"), |i| by("a", i, &["input"], &[])),
        logged!(["a", "", "ab"], |i| sscanf::scanf!({ ev("input"); i }, "{str}"), |i| by("(.+?)", i, &["input"], &["=str@0:"])),
        logged!(["a1", "a", "1"], |i| sscanf::sscanf_unescaped!({ ev("input"); i }, "[a-c]?{L1}"), |i| by("[a-c]?([a-zA-Z0-9]+)", i, &["input"], &["L1"])),
        logged!(["a,b", ",", "X,b", "a,X"], |i| { let mut n = 0; let r = sscanf::sscanf!({ n += 1; ev(&format!("input {n}")); i }, "{},{}", L0, L1); r }, |i| by("([a-zA-Z0-9]+),([a-zA-Z0-9]+)", i, &["input 1"], &["L0", "L1"])),
        logged!(["a", "X", "!"], |i| { let n = make(i); let r = sscanf::sscanf!(n, "{L0}"); ev("after"); r }, |i| then(vec!["made"], by("([a-zA-Z0-9]+)", i, &[], &["L0"]), &["after", "dropped"])),
        logged!(["a", "X", "!"], |i| { let n = make(i); let r = sscanf::sscanf!({ ev("input"); &n }, "{L0}"); ev("after"); r }, |i| then(vec!["made"], by("([a-zA-Z0-9]+)", i, &["input"], &["L0"]), &["after", "dropped"])),
        logged!(["a", "X", "!", "aa"], |i| { let mut it = vec!["a", "never"].into_iter(); let _ = i; sscanf::sscanf!(it.next().unwrap(), "{L0}").map(|x| (x, it.count())) .map(|(x, n)| { ev(&format!("left {n}")); x }) }, |i| (one("L0:a".into()), vec!["L0(a)".into(), "left 1".into()])),
        // types
        logged!(["a-b;", "X-b;", "a-X;", "X-X;", "a-b", ";"], |i| sscanf::sscanf!(i, "{Pair}"), |i| pair(i)),
        logged!(["a-b;", "X-b;", "a-X;", "X-X;", "a-b", ";"], |i| Pair::from_str(i), |i| pair(i)),
        logged!(["abc", "aXc", "abX", "ab!", "aX!", "a!", "b ", "b X ", "b X, ", "dxy", "dNy", "dxN", "dNN", "e", "aaX1a"], |i| sscanf::sscanf!({ ev("input"); i }, "{Choice}"), |i| then(vec!["input"], choice(i), &[])),
        logged!(["abc", "aXc", "abX", "ab!", "aX!", "a!", "b ", "b X ", "b X, ", "dxy", "dNy", "dxN", "dNN", "e", "aaX1a"], |i| Choice::from_str(i), |i| choice(i)),
        logged!(["a-b;c", "X-b;c", "a-X;c", "a-b;X", "a-b;!"], |i| sscanf::sscanf!(i, "{Pair}{L2}"), |i| {
            let (head, tail) = i.split_once(';').map_or((i, ""), |(a, b)| (&i[..=a.len()], b));
            let tail = (!tail.is_empty() && tail.chars().all(|c| c.is_ascii_alphanumeric())).then_some(tail);
            match (pair(head), tail) {
                ((Obs::MatchFailed, _), _) | (_, None) => (Obs::MatchFailed, vec![]),
                ((Obs::Ok(mut v), mut l), Some(t)) => {
                    l.push(format!("L2({t})"));
                    if t.contains('X') { return (fail(), l); }
                    v.push(format!("L2:{t}"));
                    (Obs::Ok(v), l)
                }
                (w, _) => w,
            }
        }),
        // nothing is converted to get the regex, or to check something else
        logged!(["a", "X", "!"], |i| { let r = sscanf::sscanf_get_regex!("{}", L0); if r.is_match(i) { Ok(()) } else { Err(sscanf::Error::MatchFailed) } }, |i| by("[a-zA-Z0-9]+", i, &[], &[])),
        // many
        logged!(["abcdefghij", "aXcdefghij", "abcdefghiX", "abcdefghi", "XXXXXXXXXX"], |i| sscanf::sscanf!(i, "{:/./}{:/./}{:/./}{:/./}{:/./}{:/./}{:/./}{:/./}{:/./}{:/./}", L0, L1, L2, L3, L4, L5, L6, L7, L8, L9),
            |i| by("(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)", i, &[], &["L0", "L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "L9"])),
        logged!(["ab", "Xb", "aX", "XX"], |i| sscanf::sscanf!(i, "{1:/./}{0:/./}", L0, L1), |i| by("(.)(.)", i, &[], &["L1", "L0"])),
        logged!(["abc", "Xbc", "aXc", "abX"], |i| sscanf::sscanf!(i, "{0:/./}{0:/./}{0:/./}", L5), |i| by("(.)(.)(.)", i, &[], &["L5", "L5", "L5"])),
    ]
}

fn main() {
    quiet_panics();
    watchdog("P16", 60);
    let mut rep = Report::new("P16");
    let plan = plan::plan("P16", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &run::Options { logs: true, ..Default::default() });
    let cases = logged_cases();
    parallel(&mut rep, cases.len(), |n, rep| {
        let c = &cases[n];
        let mut r = Rng::new(seed(), &format!("p16-{n}"));
        let mut inputs: Vec<String> = c.inputs.iter().map(|s| s.to_string()).collect();
        for i in c.inputs {
            inputs.extend(neighbours(i, true, &mut r));
            for _ in 0..tiered(100, 2000) {
                let mut s = i.to_string();
                for _ in 0..r.range(1, 4) {
                    s = monlib::gen::mutate(&s, &mut r);
                }
                inputs.push(s);
            }
        }
        for i in &inputs {
            let (want, wlog) = (c.want)(i);
            let (got, glog) = observe(c.f, i);
            let got = match got { Obs::ParsingFailed(_) => fail(), o => o };
            rep.eval(spec::hash_str(&format!("{}\u{0}{i}", c.call)), !i.is_empty());
            rep.count("hand-written calls with a log");
            rep.add("hand-written: events", glog.len() as u64);
            if got != want || glog != wlog {
                rep.violation(
                    format!("{}|{i}", c.call),
                    format!("{}\non {i:?}\nexpected {want:?} with events {wlog:?}\n     got {got:?} with events {glog:?}", c.call),
                );
            }
        }
    });
    rep.finish();
}
