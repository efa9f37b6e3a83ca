//! Runs generated call sites against the model
use crate::*;
use monlib::gen::mutate;
use monlib::plan::{Plan, Site};
use monlib::spec::Outcome;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::error::Error as _;
use std::sync::Mutex;

/// What a call did
#[derive(Debug, Clone, PartialEq)]
pub enum Obs {
    Ok(Vec<String>),
    MatchFailed,
    /// the causes, from the outside to the inside (see `chain`)
    ParsingFailed(String),
    Panic(String),
}
pub fn obs<T: ShowAll>(r: Result<T, sscanf::Error>) -> Obs {
    match r {
        Ok(v) => Obs::Ok(v.show_all()),
        Err(e) => obs_err(&e),
    }
}
pub fn obs_err(e: &sscanf::Error) -> Obs {
    match e {
        sscanf::Error::MatchFailed => match e.source() {
            None => Obs::MatchFailed,
            Some(c) => Obs::Panic(format!("a mismatch has the cause {c}")),
        },
        sscanf::Error::ParsingFailed(_) => Obs::ParsingFailed(chain(e)),
    }
}

type DynErr = dyn std::error::Error + 'static;
/// `FromStr(T)` if the error is the one of the blanket implementation for T
fn from_str_tag(e: &DynErr) -> Option<String> {
    macro_rules! list {
        ($($t:ty => $n:literal),* $(,)?) => { $(
            if let Some(x) = e.downcast_ref::<sscanf::errors::FromStrFailedError<$t>>() {
                if x.type_name != std::any::type_name::<$t>() {
                    return Some(format!("FromStr({} named {})", $n, x.type_name));
                }
                return Some(concat!("FromStr(", $n, ")").to_string());
            }
        )* };
    }
    use std::num::*;
    list!(
        u8 => "u8", u16 => "u16", u32 => "u32", u64 => "u64", u128 => "u128", usize => "usize",
        i8 => "i8", i16 => "i16", i32 => "i32", i64 => "i64", i128 => "i128", isize => "isize",
        NonZeroU8 => "NonZeroU8", NonZeroU16 => "NonZeroU16", NonZeroU32 => "NonZeroU32", NonZeroU64 => "NonZeroU64",
        NonZeroU128 => "NonZeroU128", NonZeroUsize => "NonZeroUsize", NonZeroI8 => "NonZeroI8", NonZeroI16 => "NonZeroI16",
        NonZeroI32 => "NonZeroI32", NonZeroI64 => "NonZeroI64", NonZeroI128 => "NonZeroI128", NonZeroIsize => "NonZeroIsize",
        f32 => "f32", f64 => "f64", sscanf::FullF32 => "FullF32", sscanf::FullF64 => "FullF64",
        sscanf::HexNumber => "HexNumber", char => "char", bool => "bool",
        std::net::Ipv4Addr => "Ipv4Addr", std::net::IpAddr => "IpAddr",
        L0 => "L0", L1 => "L1", L2 => "L2", L3 => "L3", L4 => "L4", L5 => "L5", L6 => "L6", L7 => "L7", L8 => "L8", L9 => "L9",
    );
    None
}
fn tag(e: &DynErr) -> String {
    if let Some(t) = from_str_tag(e) {
        return t;
    }
    if let Some(x) = e.downcast_ref::<sscanf::errors::FromScanfFailedError>() {
        return format!("FromScanf({})", x.type_name);
    }
    if let Some(x) = e.downcast_ref::<sscanf::errors::FilterMapNoneError>() {
        return format!("FilterMapNone({})", x.field_name.strip_prefix("r#").unwrap_or(x.field_name));
    }
    macro_rules! list {
        ($($t:path),*) => { $( if e.is::<$t>() { return format!("{}:{e}", stringify!($t).rsplit(':').next().unwrap().trim()); } )* };
    }
    list!(std::num::ParseIntError, std::num::ParseFloatError, std::str::ParseBoolError, std::char::ParseCharError, std::net::AddrParseError);
    if e.is::<LogErr>() || e.is::<TryErr>() {
        return e.to_string();
    }
    format!("?:{e}")
}
/// The types and texts of all causes of an error; notes where a text does not contain that of its cause
pub fn chain(e: &sscanf::Error) -> String {
    let mut out: Vec<String> = vec![];
    let mut outer = e.to_string();
    let mut at = e.source();
    while let Some(c) = at {
        let text = c.to_string();
        let mut t = tag(c);
        if !outer.contains(&text) {
            t += &format!(" [not in the text of what it caused: {outer:?}]");
        }
        out.push(t);
        outer = text;
        at = c.source();
        if out.len() > 100 {
            out.push("...".into());
            break;
        }
    }
    out.join(" <- ")
}
pub fn agrees(o: &Obs, m: &Outcome) -> bool {
    match (o, m) {
        (Obs::Ok(a), Outcome::Ok(b)) => a == b,
        (Obs::MatchFailed, Outcome::MatchFailed) => true,
        (Obs::ParsingFailed(_), Outcome::ParsingFailed) => true,
        _ => false,
    }
}

thread_local! {
    static WATCHED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
use std::cell::RefCell;
/// panics are recorded instead of printed
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if !WATCHED.with(|w| w.get()) {
            // of the harness itself
            eprintln!("{s}");
        }
        PANIC.try_with(|p| *p.borrow_mut() = s).ok();
    }));
}
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = WATCHED.with(|w| w.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()));
    WATCHED.with(|w| w.set(before));
    r
}
pub fn observe(f: fn(&str) -> Obs, input: &str) -> (Obs, Vec<String>) {
    set_base(input);
    take_log();
    let o = watched(input, || caught(|| f(input)).unwrap_or_else(Obs::Panic));
    (o, take_log())
}

/// What a thread is doing at the moment: since when (0: nothing), and the input
#[derive(Default)]
struct Doing {
    since: AtomicU64,
    ptr: AtomicUsize,
    len: AtomicUsize,
}
static ALL: Mutex<Vec<std::sync::Arc<Doing>>> = Mutex::new(vec![]);
thread_local! {
    static DOING: std::sync::Arc<Doing> = {
        let d = std::sync::Arc::<Doing>::default();
        ALL.lock().unwrap().push(d.clone());
        d
    };
}
fn now() -> u64 {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
/// runs something that is reported if it does not end
pub fn watched<R>(input: &str, f: impl FnOnce() -> R) -> R {
    let d = DOING.with(|d| d.clone());
    d.ptr.store(input.as_ptr() as usize, Ordering::Relaxed);
    d.len.store(input.len(), Ordering::Relaxed);
    d.since.store(now(), Ordering::Release);
    let r = f();
    d.since.store(0, Ordering::Release);
    r
}
/// Calls that do not end within this many seconds are a violation
pub fn watchdog(property: &'static str, seconds: u64) {
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let stuck = ALL.lock().unwrap().iter().find_map(|d| {
            let since = d.since.load(Ordering::Acquire);
            (since != 0 && now() > since + seconds * 1000).then(|| {
                // SAFETY: the call that borrows the input has not returned
                unsafe { std::slice::from_raw_parts(d.ptr.load(Ordering::Relaxed) as *const u8, d.len.load(Ordering::Relaxed)) }.to_vec()
            })
        });
        if let Some(input) = stuck {
            let input = monlib::report::clip(&String::from_utf8_lossy(&input), 300);
            let mut rep = Report::new(property);
            rep.eval(1, true);
            rep.violation(format!("hang|{input}"), format!("a call has not returned after {seconds} s, on {input:?}"));
            rep.finish();
            std::process::exit(1);
        }
    });
}

pub fn seed() -> u64 {
    monlib::rng::env_u64("VERIF_SEED", 1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}
pub fn tiered(q: usize, t: usize) -> usize {
    if thorough() {
        t
    } else {
        q
    }
}

/// runs `f(i, report)` for all i on all cores
pub fn parallel(rep: &mut Report, n: usize, f: impl Fn(usize, &mut Report) + Sync) {
    let next = AtomicUsize::new(0);
    let reports = Mutex::new(vec![]);
    let property = rep.property.clone();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut r = Report::new(&property);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i, &mut r);
                }
                reports.lock().unwrap().push(r);
            });
        }
    });
    for r in reports.into_inner().unwrap() {
        rep.merge(r);
    }
}

/// conversions in order, and the evaluated defaults as a sorted list
pub fn split_log(log: &[String]) -> (Vec<String>, Vec<String>) {
    let (mut d, o): (Vec<String>, Vec<String>) = log.iter().cloned().partition(|s| s.starts_with("default("));
    d.sort();
    (o, d)
}

pub struct Options {
    pub inputs: usize,
    /// compare the event logs
    pub logs: bool,
    /// compare the causes of failures
    pub chains: bool,
    /// number of accepted inputs per site of which all single edits are tried
    pub neighbours: usize,
}
impl Default for Options {
    fn default() -> Self {
        Options { inputs: tiered(1000, 8000), logs: false, chains: false, neighbours: tiered(4, 20) }
    }
}

/// Characters that are put into accepted inputs at every position
pub const POOL: &[char] = &[
    'a', 'A', 'z', 'f', 'g', 'x', '0', '1', '9', '-', '+', ' ', '.', '\n', '\r', '\0', '\\', '/', '{', '}', '(', '|', 'e', '_', 'é',
    '\u{301}', '\u{212a}', '\u{17f}', '🦀', '\u{feff}', '１', '*', '$', '^', '?', '"', '#', ':', ',',
];
/// every deletion, duplication, swap, case change, and replacements and insertions from the pool
pub fn neighbours(s: &str, dense: bool, r: &mut Rng) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut push = |a: &[char], m: &[char], b: &[char]| out.push(a.iter().chain(m).chain(b).collect::<String>());
    for i in 0..=c.len() {
        let n = if dense { POOL.len() } else { 3 };
        for k in 0..n {
            let x = if dense { POOL[k] } else { *r.pick(POOL) };
            push(&c[..i], &[x], &c[i..]);
            if i < c.len() && x != c[i] {
                push(&c[..i], &[x], &c[i + 1..]);
            }
        }
        if i == c.len() {
            break;
        }
        push(&c[..i], &[], &c[i + 1..]);
        push(&c[..i], &[c[i], c[i]], &c[i + 1..]);
        push(&c[..i], &[], &[]);
        push(&[], &[], &c[i + 1..]);
        if i + 1 < c.len() && c[i] != c[i + 1] {
            push(&c[..i], &[c[i + 1], c[i]], &c[i + 2..]);
        }
        for y in c[i].to_lowercase().chain(c[i].to_uppercase()) {
            if y != c[i] {
                push(&c[..i], &[y], &c[i + 1..]);
            }
        }
    }
    out
}

/// All sites with random inputs, everything compared with the model
pub fn run_sites(rep: &mut Report, plan: &Plan, sites: &[fn(&str) -> Obs], o: &Options) {
    assert_eq!(plan.sites.len(), sites.len());
    let property = rep.property.clone();
    parallel(rep, sites.len(), |i, rep| {
        let site = &plan.sites[i];
        let mut r = Rng::new(seed(), &format!("inputs-{property}-{i}"));
        let model = plan.ctx.compile(&site.fmt);
        let mut last = String::new();
        let mut near = 0;
        for k in 0..o.inputs {
            let input = if k > 0 && r.chance(1, 6) { mutate(&last, &mut r) } else { model.input(&mut r) };
            let got = check_one(rep, i, site, &model, sites[i], &input, o);
            if near < o.neighbours && input.chars().count() < 60 && (matches!(got, Obs::Ok(_)) || k == 50) {
                near += 1;
                for n in neighbours(&input, near == 1 && input.len() < 16, &mut r) {
                    check_one(rep, i, site, &model, sites[i], &n, o);
                    rep.count("single edits of accepted inputs");
                }
            }
            last = input;
        }
    });
}

pub fn check_one(
    rep: &mut Report,
    i: usize,
    site: &Site,
    model: &spec::Model,
    f: fn(&str) -> Obs,
    input: &str,
    o: &Options,
) -> Obs {
    let (want, wlog, causes) = model.run_full(input);
    let (got, glog) = observe(f, input);
    let kind = match &want {
        Outcome::Ok(_) => "accepted",
        Outcome::MatchFailed => "match_failed",
        Outcome::ParsingFailed => "parsing_failed",
    };
    rep.count(kind);
    rep.count(&format!("group {}", site.group));
    rep.eval(
        spec::hash_str(&format!("{i}\u{0}{input}")),
        !input.is_empty() && (want != Outcome::MatchFailed || input.len() > 1),
    );
    let mut bad = vec![];
    if !agrees(&got, &want) {
        bad.push(format!("expected {want:?}\n     got {got:?}"));
    }
    if let (true, Obs::ParsingFailed(g), Outcome::ParsingFailed) = (o.chains, &got, &want) {
        let w = causes.join(" <- ");
        rep.add("causes of failures compared", causes.len() as u64);
        rep.count(&format!("chains of {} causes", causes.len()));
        if *g != w {
            bad.push(format!("expected causes {w}\n     got causes {g}"));
        }
    }
    if o.logs {
        let ((ge, gd), (we, wd)) = (split_log(&glog), split_log(&wlog));
        rep.add("conversion events", ge.len() as u64);
        if ge != we {
            bad.push(format!("expected events {we:?}\n     got events {ge:?}"));
        }
        if want == Outcome::MatchFailed && !gd.is_empty() {
            bad.push(format!("defaults without a value: {gd:?}"));
        }
        if want != Outcome::MatchFailed && gd != wd {
            bad.push(format!("expected defaults {wd:?}\n     got defaults {gd:?}"));
        }
    }
    if !bad.is_empty() {
        rep.violation(
            format!("{}|{input}", site.call),
            format!("{}\non {input:?}\n{}", site.call, bad.join("\n")),
        );
    } else if matches!(want, Outcome::Ok(_)) && i % 37 == 0 {
        rep.sample(|| format!("{} on {input:?} => {got:?}", site.call));
    }
    got
}

/// A hand-written call site and its oracle
pub struct Hand {
    pub call: &'static str,
    pub f: fn(&str) -> Obs,
}
#[macro_export]
macro_rules! hand {
    (|$i:ident| $e:expr) => {
        $crate::Hand { call: stringify!($e), f: |$i: &str| $crate::obs($e) }
    };
}
/// one observation with a known expectation
pub fn expect(rep: &mut Report, call: &str, input: &str, got: &Obs, want: &Obs) {
    rep.eval(spec::hash_str(&format!("{call}\u{0}{input}")), !input.is_empty());
    let same = match (got, want) {
        (Obs::ParsingFailed(_), Obs::ParsingFailed(w)) if w.is_empty() => true,
        (a, b) => a == b,
    };
    if !same {
        rep.violation(
            format!("{call}|{}", monlib::report::clip(input, 200)),
            format!("{call}\non {:?}\nexpected {want:?}\n     got {got:?}", monlib::report::clip(input, 500)),
        );
    }
}
pub fn ok(v: &[&str]) -> Obs {
    Obs::Ok(v.iter().map(|s| s.to_string()).collect())
}

/// A hand-written call site with its own oracle
pub struct Case {
    pub hand: Hand,
    pub want: fn(&str) -> Obs,
    pub inputs: Vec<String>,
}
#[macro_export]
macro_rules! case {
    ([$($input:expr),* $(,)?], |$i:ident| $e:expr, |$w:ident| $want:expr) => {
        $crate::Case {
            hand: $crate::hand!(|$i| $e),
            want: |$w: &str| $want,
            inputs: vec![$(::std::string::String::from($input)),*],
        }
    };
}
/// All cases with their inputs, single and repeated edits of them; also checks the panics
pub fn run_cases(rep: &mut Report, group: &str, cases: &[Case]) {
    parallel(rep, cases.len(), |n, rep| {
        let c = &cases[n];
        let mut r = Rng::new(seed(), &format!("case-{group}-{n}"));
        let mut inputs = c.inputs.clone();
        for i in &c.inputs {
            let mut v = neighbours(i, i.len() < 12, &mut r);
            r.shuffle(&mut v);
            v.truncate(tiered(200, 4000));
            inputs.extend(v);
            for _ in 0..tiered(60, 1000) {
                let mut s = i.clone();
                for _ in 0..r.range(1, 4) {
                    s = mutate(&s, &mut r);
                }
                inputs.push(s);
            }
        }
        inputs.push(String::new());
        for i in &inputs {
            let want = (c.want)(i);
            let got = observe(c.hand.f, i).0;
            rep.count(match &want {
                Obs::Ok(_) => "hand-written: accepted",
                Obs::MatchFailed => "hand-written: mismatch",
                Obs::ParsingFailed(_) => "hand-written: parsing failure",
                Obs::Panic(_) => "hand-written: panic expected",
            });
            match (&got, &want) {
                (Obs::Panic(g), Obs::Panic(w)) if g.contains(w.as_str()) => {
                    rep.eval(spec::hash_str(&format!("{}\u{0}{i}", c.hand.call)), !i.is_empty())
                }
                _ => expect(rep, c.hand.call, i, &got, &want),
            }
        }
        rep.count(&format!("hand-written calls: {group}"));
    });
}
thread_local! {
    static REGEXES: RefCell<std::collections::HashMap<&'static str, sscanf::regex::Regex>> = RefCell::default();
}
/// the groups of a regex that has to match everything (used by oracles)
pub fn groups<'a>(re: &'static str, s: &'a str) -> Option<Vec<Option<&'a str>>> {
    REGEXES.with(|m| {
        let mut m = m.borrow_mut();
        let re = m.entry(re).or_insert_with(|| sscanf::regex::Regex::new(&format!(r"\A(?:{re})\z")).unwrap());
        re.captures(s).map(|c| c.iter().map(|m| m.map(|m| m.as_str())).collect())
    })
}
/// oracle: match, then convert the groups
pub fn by_regex(re: &'static str, s: &str, f: impl FnOnce(&[&str]) -> Option<Vec<String>>) -> Obs {
    match groups(re, s) {
        None => Obs::MatchFailed,
        Some(g) => {
            let g: Vec<&str> = g.into_iter().map(|x| x.unwrap_or("\u{0}none")).collect();
            match f(&g) {
                Some(v) => Obs::Ok(v),
                None => Obs::ParsingFailed(String::new()),
            }
        }
    }
}

/// A regex of a site, and a function that lets each placeholder's type take its groups
pub struct WithRegex {
    pub get: fn() -> &'static sscanf::regex::Regex,
    pub feed: for<'t> fn(&mut sscanf::regex::SubCaptureMatches<'_, 't>, &mut Feed),
}
#[derive(Default, Debug)]
pub struct Feed {
    /// groups left in front of each placeholder, and the value its type made of them
    pub seen: Vec<(usize, Option<Result<String, String>>)>,
    pub left: Option<usize>,
}
impl Feed {
    pub fn own(&mut self, len: usize, v: Result<String, String>) -> bool {
        let ok = v.is_ok();
        self.seen.push((len, Some(v)));
        ok
    }
    pub fn plain(&mut self, len: usize) {
        self.seen.push((len, None));
    }
    pub fn end(&mut self, len: usize) {
        self.left = Some(len);
    }
}

/// all strings over an alphabet up to a length
pub fn all_strings(alphabet: &str, len: usize, f: &mut dyn FnMut(&str)) {
    let a: Vec<char> = alphabet.chars().collect();
    let mut idx = vec![];
    loop {
        let s: String = idx.iter().map(|i: &usize| a[*i]).collect();
        f(&s);
        let mut k = 0;
        loop {
            if k == idx.len() {
                idx.push(0);
                break;
            }
            idx[k] += 1;
            if idx[k] < a.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if idx.len() > len {
            break;
        }
    }
}

/// Every built-in type with a custom regex that lets any text through to the conversion
pub fn any_text(rep: &mut Report, plan: &Plan, sites: &[fn(&str) -> Obs]) {
    let any: Vec<usize> = (0..plan.sites.len()).filter(|i| plan.sites[*i].group == "any text").collect();
    parallel(rep, any.len(), |k, rep| {
        let i = any[k];
        let site = &plan.sites[i];
        let model = plan.ctx.compile(&site.fmt);
        let mut r = Rng::new(seed(), &format!("any-text-{i}"));
        let one = |rep: &mut Report, s: &str| {
            rep.count("any text let through to the conversion");
            check_one(rep, i, site, &model, sites[i], s, &Options::default());
        };
        all_strings("01xXeé+-.f:_ \0🦀", tiered(3, 4), &mut |s| one(rep, s));
        let words = [
            "0x", "0X", "0o", "0b", "ff", "FF", "1", "255", "256", "18446744073709551615", "18446744073709551616", "-", "+", "−", "é", "e\u{301}", "🦀", " ", "\n", "\0",
            "_", ".", "e", "e9", "E-9", "inf", "NaN", "nan", "infinity", "true", "false", "True", "127.0.0.1", "::1", "::", ":", "/", "\\", "99999999999999999999999999999999999999999",
            "\u{feff}", "\u{a0}", "٣", "K", "ſ", "\u{7f}", "\u{80}", "\u{7ff}", "\u{ffff}", "\u{10ffff}",
        ];
        for _ in 0..tiered(400, 8000) {
            let s: String = (0..r.range(1, 5)).map(|_| *r.pick(&words[..])).collect();
            one(rep, &s);
        }
    });
}
