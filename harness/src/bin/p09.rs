#![allow(deprecated, unused, non_snake_case, non_camel_case_types, text_direction_codepoint_in_literal)]
use harness::*;
use monlib::cases::*;
use sscanf::regex::Regex;
use sscanf::sscanf;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P09.rs"));
}
include!(concat!(env!("OUT_DIR"), "/P09C.rs"));

#[derive(Debug, sscanf::FromScanf)]
enum Overlap<'a> {
    #[sscanf("a")]
    A1,
    #[sscanf(r"[ab]")]
    Ab,
    #[sscanf("ab")]
    Long,
    #[sscanf("{}!")]
    Text(&'a str),
    #[sscanf(transparent)]
    Number(i16),
    #[sscanf("{}{}", )]
    Chars { x: char, y: char },
    Never(Box<Overlap<'a>>),
    #[sscanf(skip)]
    Skipped,
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(autogen = "lowercase")]
#[repr(u8)]
enum Discriminants {
    One = 1,
    #[sscanf(skip)]
    Two,
    #[sscanf(format = "drei")]
    Three = 10,
    #[sscanf("x{:/[a-f]+/}", )]
    Four(String) = 3,
    Five {},
    Six(),
}
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum Generic<'a, T: Default, const N: usize = 3>
where
    T: Clone,
{
    #[sscanf("default")]
    Default(#[sscanf(default)] T),
    #[sscanf("{}+{}")]
    Both(&'a str, #[sscanf(map = |n: u8| [n; N])] [u8; N]),
    Other(T),
}
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(autogen)]
enum Single {
    Only,
}
#[derive(Debug, sscanf::FromScanf)]
enum Nested {
    #[sscanf(transparent)]
    S(Single),
    #[sscanf(transparent)]
    D {
        discriminants: Discriminants,
    },
    #[sscanf("[{}|{}]")]
    Two(Single, Discriminants),
    #[sscanf("({})")]
    Mapped(#[sscanf(map = |d: Discriminants| matches!(d, Discriminants::One))] bool),
    #[sscanf("?{}")]
    Filter(#[sscanf(filter_map = |d: Discriminants| if let Discriminants::Four(s) = d { Some(s.len()) } else { None })] usize),
}
/// variants that match the empty text
#[derive(Debug, sscanf::FromScanf)]
enum Empties {
    #[sscanf("")]
    Nothing,
    #[sscanf("{:/x*/}")]
    Xs(String),
    #[sscanf("{:/x?/}{:/y*/}")]
    Two(String, String),
    #[sscanf("z")]
    Z,
    #[sscanf(format_unescaped = "q*")]
    Qs { #[sscanf(default)] n: u8 },
}
#[derive(Debug, sscanf::FromScanf)]
enum OrLater {
    #[sscanf("{:/(?:ab)*/}")]
    Abs(String),
    #[sscanf(transparent)]
    Deep(Empties),
    #[sscanf("")]
    Unreachable,
}
macro_rules! debug_show { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { format!("{self:?}") } })* } }
debug_show!(Overlap<'_>, Discriminants, Generic<'_, u8>, Generic<'_, String, 1>, Single, Nested, Empties, OrLater);

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn fail() -> Obs {
    Obs::ParsingFailed(String::new())
}
/// the alternatives in order: the first regex that matches everything decides
fn first(s: &str, alternatives: &[(&'static str, &dyn Fn(&[&str]) -> Option<String>)]) -> Obs {
    for (re, f) in alternatives {
        if let Some(g) = groups(re, s) {
            let g: Vec<&str> = g.into_iter().map(|x| x.unwrap()).collect();
            return f(&g).map_or_else(fail, |s| ok(&[&s]));
        }
    }
    Obs::MatchFailed
}
fn discriminants(s: &str) -> Obs {
    first(s, &[
        ("one", &|_| Some("One".into())),
        ("drei", &|_| Some("Three".into())),
        ("x([a-f]+)", &|g| Some(format!("Four({:?})", g[1]))),
        ("five", &|_| Some("Five".into())),
        ("six", &|_| Some("Six".into())),
    ])
}
const EMPTY: &str = "x*|x?y*|z|q*";
fn empties(g: &[&str]) -> Option<String> {
    let s = g[0];
    Some(if s.is_empty() {
        "Nothing".into()
    } else if s == "z" {
        "Z".into()
    } else if s.starts_with('q') {
        "Qs { n: 0 }".into()
    } else if s.contains('y') {
        let (x, y) = s.split_at(s.find('y')?);
        format!("Two({x:?}, {y:?})")
    } else {
        format!("Xs({s:?})")
    })
}
fn text(o: Obs) -> Option<String> {
    match o {
        Obs::Ok(v) => Some(v.concat()),
        _ => None,
    }
}
const D: &str = "one|drei|x[a-f]+|five|six";
fn cases() -> Vec<Case> {
    vec![
        case!(["a", "b", "[ab]", "ab", "abc!", "!", "a!!", "-12", "40000", "xy", "é1", "12", "99999"], |i| sscanf!(i, "{Overlap}"), |w| first(w, &[
            ("a", &|_| Some("A1".into())),
            (r"[ab]", &|_| Some("Ab".into())),
            ("ab", &|_| Some("Long".into())),
            ("(.+?)!", &|g| Some(format!("Text({:?})", g[1]))),
            (r"([-+]?\d{1,5})", &|g| Some(format!("Number({})", num::<i16>(g[1])?))),
            ("(.)(.)", &|g| Some(format!("Chars {{ x: {:?}, y: {:?} }}", g[1].chars().next()?, g[2].chars().next()?))),
        ])),
        // the variant is chosen so that everything around it matches
        case!(["aa", "aab", "ba", "a!a", "12a", "xyz", "123"], |i| sscanf!(i, "{Overlap}{char}"), |w| {
            let Some((at, last)) = w.char_indices().last() else { return Obs::MatchFailed };
            if last == '\n' { return Obs::MatchFailed; }
            let head = &w[..at];
            match first(head, &[
                ("a", &|_| Some("A1".into())),
                (r"[ab]", &|_| Some("Ab".into())),
                ("ab", &|_| Some("Long".into())),
                ("(.+?)!", &|g| Some(format!("Text({:?})", g[1]))),
                (r"([-+]?\d{1,5})", &|g| Some(format!("Number({})", num::<i16>(g[1])?))),
                ("(.)(.)", &|g| Some(format!("Chars {{ x: {:?}, y: {:?} }}", g[1].chars().next()?, g[2].chars().next()?))),
            ]) {
                Obs::Ok(mut v) => { v.push(format!("char:{last}")); Obs::Ok(v) }
                o => o,
            }
        }),
        case!(["one", "two", "Two", "drei", "three", "xabc", "x", "five", "six", "four"], |i| sscanf!(i, "{}", Discriminants), |w| discriminants(w)),
        case!(["one", "two", "drei", "three", "xabc", "five", "six"], |i| <Discriminants as sscanf::FromScanf>::from_str(i), |w| discriminants(w)),
        case!(["default", "default+1", "a+12", "a+b+256", "other"], |i| sscanf!(i, "{Generic<u8>}"), |w| first(w, &[
            ("default", &|_| Some("Default(0)".into())),
            (r"(.+?)\+(\+?\d{1,3})", &|g| { let n = num::<u8>(g[2])?; Some(format!("Both({:?}, [{n}, {n}, {n}])", g[1])) }),
        ])),
        case!(["default", "a+12", "a+b+256", "a++1"], |i| sscanf!(i, "{}", Generic<String, 1>), |w| first(w, &[
            ("default", &|_| Some("Default(\"\")".into())),
            (r"(.+?)\+(\+?\d{1,3})", &|g| { let n = num::<u8>(g[2])?; Some(format!("Both({:?}, [{n}])", g[1])) }),
        ])),
        case!(["Only", "only"], |i| sscanf!(i, "{Single}"), |w| if w == "Only" { ok(&["Only"]) } else { Obs::MatchFailed }),
        case!(["OnlyOnly", "Only"], |i| sscanf!(i, "{Single}{0}", Single), |w| if w == "OnlyOnly" { ok(&["Only", "Only"]) } else { Obs::MatchFailed }),
        case!(["", "x", "xx", "y", "xy", "xxy", "z", "q", "qq", "zz"], |i| sscanf!(i, "{Empties}"), |w| first(w, &[(EMPTY, &empties)])),
        case!(["", "xx", "xy", "z"], |i| <Empties as sscanf::FromScanf>::from_str(i), |w| first(w, &[(EMPTY, &empties)])),
        case!(["[]", "[x]", "[xyy]", "[z]", "[q]", "[zz]"], |i| sscanf!(i, "[{}]", Empties), |w| first(w, &[(r"\[(x*|x?y*|z|q*)\]", &|g| empties(&g[1..]))])),
        // several next to each other: the empty one first
        case!(["", "x", "z", "q", "y", "xy", "xz", "zx", "zz", "zzz"], |i| sscanf!(i, "{Empties}{Empties}"), |w| {
            for (a, b) in [("", "x*|x?y*|z|q*"), ("x+", "x*|x?y*|z|q*"), ("x?y+", "x*|x?y*|z|q*"), ("z", "x*|x?y*|z|q*"), ("q+", "x*|x?y*|z|q*")] {
                let re = Regex::new(&format!("^({a})({b})$")).unwrap();
                if let Some(c) = re.captures(w) {
                    return ok(&[&empties(&[&c[1]]).unwrap(), &empties(&[&c[2]]).unwrap()]);
                }
            }
            Obs::MatchFailed
        }),
        case!(["", "ab", "abab", "a", "x", "xy", "z", "q"], |i| sscanf!(i, "{OrLater}"), |w| first(w, &[
            ("(?:ab)*", &|g| Some(format!("Abs({:?})", g[0]))),
            (EMPTY, &|g| Some(format!("Deep({})", empties(g)?))),
        ])),
        case!(["-+", "ab-x+", "-x+", "-+z", "z-+", "qq-xyy+"], |i| sscanf!(i, "{OrLater}-{OrLater}+"), |w| {
            let part = |s: &str| text(first(s, &[
                ("(?:ab)*", &|g| Some(format!("Abs({:?})", g[0]))),
                (EMPTY, &|g| Some(format!("Deep({})", empties(g)?))),
            ]));
            match w.strip_suffix('+').and_then(|w| w.split_once('-')).and_then(|(a, b)| Some((part(a)?, part(b)?))) {
                Some((a, b)) => ok(&[&a, &b]),
                None => Obs::MatchFailed,
            }
        }),
        case!(["Only", "one", "drei", "xaf", "[Only|six]", "[Only|xab]", "(one)", "(xa)", "(five)", "?xabc", "?one"], |i| sscanf!(i, "{Nested}"), |w| first(w, &[
            ("Only", &|_| Some("S(Only)".into())),
            (D, &|g| Some(format!("D {{ discriminants: {} }}", text(discriminants(g[0]))?))),
            (r"\[Only\|(one|drei|x[a-f]+|five|six)\]", &|g| Some(format!("Two(Only, {})", text(discriminants(g[1]))?))),
            (r"\((one|drei|x[a-f]+|five|six)\)", &|g| Some(format!("Mapped({})", g[1] == "one"))),
            (r"\?(one|drei|x[a-f]+|five|six)", &|g| if g[1].starts_with('x') { Some(format!("Filter({})", g[1].len() - 1)) } else { None }),
        ])),
    ]
}

fn main() {
    quiet_panics();
    watchdog("P09", 60);
    let mut rep = Report::new("P09");
    let plan = plan::plan("P09", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());
    run_cases(&mut rep, "enums", &cases());

    // every case with every kind of variant name
    let all = casings();
    parallel(&mut rep, all.len(), |n, rep| {
        let case = case_of(n);
        let mut r = Rng::new(seed(), &format!("casing-{n}"));
        // in order of the definition
        let mut variants: Vec<(Regex, String)> = vec![];
        let mut inputs: Vec<String> = vec![];
        for (i, k) in order(n).into_iter().enumerate() {
            let (name, words) = NAMES[k];
            let (re, shown) = match treatment(n, i) {
                0 => (
                    match monlib::cases::text(case, name, words) {
                        Some(t) => format!("^{}$", spec_escape(&t)),
                        None => format!("(?i)^{}$", name.strip_prefix("r#").unwrap_or(name)),
                    },
                    format!("#{k}"),
                ),
                1 => (String::new(), String::new()),
                2 => (format!("^own{k}$"), format!("#{k}")),
                _ => (format!(r"^f{k}=(\+?\d{{1,3}})$"), format!("#{k}=")),
            };
            if !re.is_empty() {
                variants.push((Regex::new(&re).unwrap(), shown));
            }
            for c in monlib::defs::CASES {
                inputs.extend(monlib::cases::text(c, name, words));
            }
            inputs.push(format!("own{k}"));
            inputs.push(format!("f{k}={}", r.below(300)));
        }
        for i in inputs.clone() {
            let mut v = neighbours(&i, false, &mut r);
            r.shuffle(&mut v);
            v.truncate(tiered(12, 200));
            inputs.extend(v);
        }
        for i in &inputs {
            let want = variants.iter().find_map(|(re, shown)| {
                let c = re.captures(i)?;
                Some(match c.get(1) {
                    None => Ok(shown.clone()),
                    Some(m) => match m.as_str().parse::<u8>() {
                        Ok(x) => Ok(format!("{shown}{x}")),
                        Err(_) => Err(()),
                    },
                })
            });
            rep.count(if want.is_some() { "casing: accepted" } else { "casing: rejected" });
            let want = |pre: &str| match &want {
                None => Obs::MatchFailed,
                Some(Ok(s)) => ok(&[&format!("{pre}{s}")]),
                Some(Err(())) => fail(),
            };
            expect(rep, all[n][0].call, i, &observe(all[n][0].f, i).0, &want(""));
            let j = format!("<{i}>");
            expect(rep, all[n][1].call, &j, &observe(all[n][1].f, &j).0, &want(""));
            let j = format!("é{i}");
            expect(rep, all[n][2].call, &j, &observe(all[n][2].f, &j).0, &want("é"));
        }
    });
    rep.finish();
}
fn spec_escape(s: &str) -> String {
    monlib::gen::regex_escape(s)
}
