#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
//! Every allocation of the process goes through a counter: what a call leaves behind, and how much it
//! takes while it runs, is observed from there.
use harness::*;
use sscanf::{sscanf, sscanf_get_regex, sscanf_unescaped, FromScanf, RegexRepresentation};
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Cow;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P14.rs"));
}

struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
static ALL: AtomicI64 = AtomicI64::new(0);
fn change(by: i64) {
    ALL.fetch_add(by, Relaxed);
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + by);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        change(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// bytes that were taken on top of what was there before
fn peak(f: impl FnOnce()) -> i64 {
    let before = live();
    PEAK.with(|p| p.set(before));
    f();
    PEAK.with(|p| p.get()) - before
}

// ------------------------------------------------------------------ types
#[derive(Debug, FromScanf)]
#[sscanf("{a};{b};{c:x};{d}")]
struct Mixed<'a> {
    a: &'a str,
    b: String,
    c: u64,
    #[sscanf(default = vec![1, 2, 3])]
    v: Vec<u8>,
    d: Cow<'a, str>,
}
#[derive(Debug, FromScanf)]
enum Choice<'a> {
    #[sscanf("n={0}")]
    Number(i64),
    #[sscanf("t={0}")]
    Text(&'a str),
    #[sscanf("m={0}")]
    Nested(Box2),
    #[sscanf("f={0}")]
    Filtered(#[sscanf(filter_map = |x: u16| if x % 2 == 0 { Some(x.to_string()) } else { None })] String),
    #[sscanf(transparent)]
    Last(Auto),
}
#[derive(Debug, FromScanf)]
#[sscanf(autogen = "snake_case")]
enum Auto {
    OneTwo,
    Three,
}
#[derive(Debug, FromScanf)]
#[sscanf("[{}|{:/[a-z]+/}]")]
struct Box2(#[sscanf(map = |x: String| x.into_bytes())] Vec<u8>, #[sscanf(try_from = String)] Tried);
#[derive(Debug)]
struct Tried(String);
impl TryFrom<String> for Tried {
    type Error = std::fmt::Error;
    fn try_from(s: String) -> Result<Self, std::fmt::Error> {
        if s.starts_with('c') {
            Err(std::fmt::Error)
        } else {
            Ok(Tried(s))
        }
    }
}
#[derive(Debug, FromScanf)]
#[sscanf(format_unescaped = "(?i)k+{0}(?:,|;){1}")]
struct Loose(f64, char);

struct Site {
    name: &'static str,
    f: fn(&str),
    /// 5 stands for one of the digits 2 to 5, e for one of the letters c to f, in each new input
    templates: &'static [&'static str],
}
macro_rules! sites {
    ($($name:literal |$i:ident| $e:expr, [$($t:literal),*];)*) => { vec![$(Site { name: $name, f: |$i| { let _ = $e; }, templates: &[$($t),*] }),*] };
}
fn sites() -> Vec<Site> {
    sites! {
        "u8" |i| sscanf!(i, "{u8}"), ["5", "55", "555", "e", "555555555"];
        "all integers" |i| sscanf!(i, "{u8} {u16} {u32} {u64} {u128} {usize} {i8} {i16} {i32} {i64} {i128} {isize}"),
            ["55 555 5555 55555 555555 5 -5 -55 +555 5555 -55555 5", "555 5 5 5 5 5 5 5 5 5 5 5", "5 5 5"];
        "radix" |i| sscanf!(i, "{u8:x} {u16:#x} {i32:o} {i64:#b} {u32:r7} {i128:r36} {usize:#o} {i8:x#}"),
            ["e5 0xee5 -555 -0b1 555 -eee5e 0o55 0x5", "e5e 0xee5 -555 0b1 555 eee5e 0o55 5", "e5 ee5 555 0b5 5 e 5 5"];
        "floats" |i| sscanf!(i, "{f32}|{f64}"), ["5.55|-5e5", "5|5.", "-.5e-5|nan", "5e|5", "555555555555555555.5|5e555"];
        "bool char" |i| sscanf!(i, "{bool}{char}"), ["truee", "false5", "trueé", "eeee"];
        "str" |i| sscanf!(i, "{str}"), ["eeee", "e", "5e5e5e5e5e5e5e5e", "é5ß", ""];
        "strs" |i| sscanf!(i, "{str},{str}:{str}"), ["e,e:e", "eeee5,5555e:eeeeeee", "ee,e", ",:"];
        "String" |i| sscanf!(i, "{String},{std::path::PathBuf}"), ["eee,eee", "e55,/e/5.e", "ee"];
        "Cow" |i| sscanf!(i, "{},{}", Cow<str>, std::borrow::Cow<'_, str>), ["eee,eee", "e", "55,5e"];
        "nonzero" |i| sscanf!(i, "{}{:/[0-9]+/}", std::num::NonZeroU8, std::num::NonZeroI64), ["555", "5555", "50000000000000000000000000000000", "0555"];
        "custom" |i| sscanf!(i, r"{str:/[a-f]{2,4}|\d+/}{u8:/5?./}", ), ["eee5", "5555", "ee5e", "555"];
        "hex regex" |i| sscanf!(i, "{String:/(?i)[a-f]+/}={}", sscanf::HexNumber), ["eee=0xee5", "E=e5", "ee=eeeeeeeeeeeeeeeee5e5e", "e"];
        "full floats" |i| sscanf!(i, "{} {}", sscanf::FullF32, sscanf::FullF64), ["5.5e5 nan", "-5 inf", "e 5"];
        "indices" |i| sscanf!(i, "{1}{0}{1}x{}", u8, char), ["e5ex5", "é55x555", "e555ex5", "ex5"];
        "unescaped" |i| sscanf_unescaped!(i, "(?:a|b)*{str}[ -]{{1,3}}{u8}\\b"), ["abeee - 5", "ee 555", "ab-5", "eee"];
        "old" |i| sscanf::scanf!(i, "{str}-{i32}"), ["eeee-5", "e--55", "eeee-e"];
        "regex" |i| sscanf_get_regex!("{str}-{i32}").captures(i).map(|c| c.len()), ["eeee-5", "e--55", "eeee-e"];
        "owned input" |i| { let o = i.to_string(); sscanf!(o, "{u8}-{String}").is_ok() }, ["5-eee", "555-e", "eee"];
        "boxed input" |i| { let o = Box::new(i.to_string()); sscanf!(&o, "{u8}-{String}").is_ok() }, ["5-eee", "555-e", "eee"];
        "error text" |i| sscanf!(i, "{u8}").map_err(|e| e.to_string()), ["555", "e", "5"];
        "error debug" |i| sscanf!(i, "{Mixed}").map_err(|e| format!("{e:?}")), ["e;e;5555555555555555e;e", "e;e;eeeeeeeeeeeeeeee5;e", "e"];
        "question mark" |i| (|| -> Result<u8, Box<dyn std::error::Error>> { Ok(sscanf!(i, "{u8}")?) })(), ["555", "e", "5"];
        "panicking conversion" |i| caught(|| { let _ = sscanf!(i, "{Panicking}"); }).is_ok(), ["555", "e", "5"];
        "struct" |i| sscanf!(i, "{Mixed}"), ["ee;5ee;e5e5;eee", "e;e;eeeeeeeeeeeeeeee5;e", "e;e;e", "e;e;z;e"];
        "enum" |i| sscanf!(i, "<{Choice}>"), ["<n=555>", "<n=-55555555555555555555>", "<t=eee5e>", "<m=[55|eee]>", "<f=555>", "<one_two>", "<three>", "<four>"];
        "enums" |i| sscanf!(i, "{Choice} {Choice}"), ["n=555 t=eee", "t=e t=e", "f=555 f=55", "m=[e|e] three"];
        "loose" |i| sscanf!(i, "{Loose}"), ["K5.5,e", "kkk-5e5;é", "k5"];
        "direct struct" |i| Mixed::from_str(i), ["ee;5ee;e5e5;eee", "e;e;e"];
        "direct enum" |i| Choice::from_str(i), ["n=555", "t=eee5e", "m=[55|eee]", "f=555", "four"];
        "direct u8" |i| <u8 as FromScanf>::from_str(i), ["5", "555", "e"];
        "direct number" |i| <sscanf::HexNumber as FromScanf>::from_str(i), ["0xee5", "5e", "z"];
        "none" |i| sscanf!(i, "eee{{5}}"), ["eee{5}", "e"];
        "long text" |i| sscanf!(i, "{str}.{u64}.{str}"), ["eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee.555.eeeeeeeeeeeeeeeeeeeeeeeeeeee5555eeeeeeeeeeeeeeeeee"];
    }
}
#[derive(Debug)]
struct Panicking;
impl std::str::FromStr for Panicking {
    type Err = std::fmt::Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let _kept = s.to_string();
        if s.len() == 3 {
            panic!("conversion of {s}")
        }
        Ok(Panicking)
    }
}
impl RegexRepresentation for Panicking {
    const REGEX: &'static str = "[0-9]+";
}

fn fresh(t: &str, r: &mut Rng) -> String {
    t.chars()
        .map(|c| match c {
            '5' => ['2', '3', '4', '5'][r.below(4) as usize],
            'e' => ['c', 'd', 'e', 'f'][r.below(4) as usize],
            c => c,
        })
        .collect()
}

/// what is there after each round; a call that keeps something adds to every one of them
fn grows(after: &[i64]) -> bool {
    after.windows(2).all(|w| w[1] > w[0])
}

/// generated calls: the same inputs again and again
fn generated(rep: &mut Report) {
    let plan = plan::plan("P14", seed(), thorough());
    parallel(rep, plan.sites.len(), |k, rep| {
        let site = &plan.sites[k];
        let model = plan.ctx.compile(&site.fmt);
        let mut r = Rng::new(seed(), &format!("kept-{k}"));
        let mut inputs: Vec<String> = (0..tiered(20, 60)).map(|_| model.input(&mut r)).collect();
        for i in 0..tiered(10, 40) {
            let m = monlib::gen::mutate(&inputs[i % inputs.len()], &mut r);
            inputs.push(m);
        }
        let mut after = Vec::with_capacity(16);
        for round in 0..tiered(9, 14) {
            for i in &inputs {
                let _ = observe(gen::SITES[k], i);
            }
            let _ = take_log();
            if round > 2 {
                after.push(live());
            }
        }
        for i in &inputs {
            rep.eval(monlib::spec::hash_str(&format!("{k}\u{0}{i}")), !i.is_empty());
        }
        rep.add("calls: generated, the same inputs repeated", (inputs.len() * tiered(9, 14)) as u64);
        rep.count(if after.windows(2).all(|w| w[0] == w[1]) { "generated calls with exactly as many bytes after every round" } else { "generated calls with caches that were still changing" });
        if grows(&after) {
            rep.violation(format!("kept|{}", site.call), format!("{}\nkeeps memory: repeating the same {} inputs leaves {after:?} bytes, e.g. {:?}", site.call, inputs.len(), &inputs[..3]));
        }
    });
}

/// hand-written calls: inputs that were never seen before, but are of the same shape
fn never_seen(rep: &mut Report) {
    let all = sites();
    parallel(rep, all.len(), |k, rep| {
        let s = &all[k];
        let mut r = Rng::new(seed(), &format!("fresh-{k}"));
        let mut after = Vec::with_capacity(16);
        let per = tiered(150, 1000);
        for round in 0..10 {
            for _ in 0..per {
                for t in s.templates {
                    let i = fresh(t, &mut r);
                    (s.f)(&i);
                    if round == 0 {
                        rep.eval(monlib::spec::hash_str(&format!("{}\u{0}{i}", s.name)), true);
                    }
                }
            }
            // the report is not part of what is observed
            if round > 2 {
                after.push(live());
            }
        }
        rep.add("calls: hand-written, new inputs", (10 * per * s.templates.len()) as u64);
        rep.count(if after.windows(2).all(|w| w[0] == w[1]) { "hand-written calls with exactly as many bytes after every round" } else { "hand-written calls with caches that were still changing" });
        // containers grow in steps, so not in every round
        let calls = (per * s.templates.len()) as i64 * 6;
        if after[6] - after[0] >= calls / 4 || grows(&after) {
            rep.violation(format!("kept|{}", s.name), format!("the call {:?} keeps memory: {} new inputs like {:?} between each of {after:?} bytes", s.name, calls / 6, s.templates));
        }
    });
}

/// threads that come and go
fn threads(rep: &mut Report) {
    let all = sites();
    let (rounds, n, per) = (tiered(24, 80), 4, tiered(30, 60));
    let mut after = Vec::with_capacity(rounds);
    let mut calls = 0;
    for round in 0..rounds {
        std::thread::scope(|s| {
            for t in 0..n {
                let all = &all;
                s.spawn(move || {
                    let mut r = Rng::new(seed(), &format!("threads-{round}-{t}"));
                    for _ in 0..per {
                        for s in all {
                            for t in s.templates {
                                (s.f)(&fresh(t, &mut r));
                            }
                        }
                    }
                });
            }
        });
        after.push(ALL.load(Relaxed));
    }
    let each = (n * per * all.iter().map(|s| s.templates.len()).sum::<usize>()) as i64;
    rep.add("calls: in threads that come and go", each as u64 * rounds as u64);
    rep.add("threads", (rounds * n) as u64);
    let late = &after[rounds / 2..];
    let grown = late[late.len() - 1] - late[0];
    rep.add("bytes by which caches grew in the second half of the threads", grown.max(0) as u64);
    if grown > each * (late.len() as i64 - 1) / 8 && grown > 200_000 || grows(late) {
        rep.violation("kept|threads", format!("memory is kept by calls in threads: {late:?} bytes after each {each} calls in {n} new threads"));
    }
}

/// how much a call takes while it runs
fn long_inputs(rep: &mut Report) {
    struct Long {
        name: &'static str,
        f: fn(&str) -> bool,
        text: fn(usize) -> String,
        /// how many copies of the input the result owns
        owned: i64,
    }
    fn xs(n: usize) -> String {
        "x".repeat(n)
    }
    macro_rules! longs {
        ($($name:literal $owned:literal $ok:literal |$n:ident| $text:expr, |$i:ident| $e:expr;)*) => { [$(Long {
            name: $name,
            f: |$i| { let r = $e; r.is_ok() == $ok },
            text: |$n| $text,
            owned: $owned,
        }),*] };
    }
    let all = longs! {
        "str" 0 true |n| xs(n), |i| sscanf!(i, "{str}");
        "two str" 0 true |n| xs(n / 2) + "," + &xs(n / 2), |i| sscanf!(i, "{str},{str}");
        "Cow" 0 true |n| xs(n), |i| sscanf!(i, "{}", Cow<str>);
        "struct" 0 true |n| format!("{};b;5;{}", xs(n / 2), xs(n / 2)), |i| sscanf!(i, "{Mixed}");
        "enum" 0 true |n| format!("t={}", xs(n)), |i| sscanf!(i, "{Choice}");
        "direct" 0 true |n| format!("t={}", xs(n)), |i| Choice::from_str(i);
        "custom regex" 0 true |n| xs(n), |i| sscanf!(i, "{str:/x*/}");
        "unescaped" 0 true |n| xs(n) + "5", |i| sscanf_unescaped!(i, "x*{u8}");
        "mismatch" 0 false |n| xs(n), |i| sscanf!(i, "{u8}");
        "late mismatch" 0 false |n| xs(n) + "\n", |i| sscanf!(i, "{str}");
        "String mismatch" 0 false |n| xs(n) + "\n", |i| sscanf!(i, "{String}{String}");
        "String" 1 true |n| xs(n), |i| sscanf!(i, "{String}");
        "PathBuf" 1 true |n| xs(n), |i| sscanf!(i, "{}", std::path::PathBuf);
        "String and str" 1 true |n| xs(n / 2) + "," + &xs(n / 2), |i| sscanf!(i, "{String},{str}");
        "long then failure" 0 false |n| xs(n) + " 555", |i| sscanf!(i, "{str} {u8}");
        "String then failure" 1 false |n| xs(n) + " 555", |i| sscanf!(i, "{String} {u8}");
        "float" 0 true |n| "1".repeat(n), |i| sscanf!(i, "{f64}");
        "owned input" 0 true |n| xs(n), |i| { let s: &str = i; sscanf!(s, "{str}") };
        "non-ASCII" 0 true |n| "é🦀".repeat(n / 6), |i| sscanf!(i, "{str}");
    };
    for l in &all {
        let mut seen = vec![];
        for n in [1usize << 16, 1 << 20, tiered(1 << 22, 1 << 24)] {
            let text = (l.text)(n);
            let mut ok = true;
            for _ in 0..2 {
                ok &= (l.f)(&text); // caches
            }
            let p = peak(|| ok &= (l.f)(&text));
            seen.push((n as i64, p));
            rep.eval(monlib::spec::hash_str(&format!("{} {n}", l.name)), true);
            rep.count("calls: long inputs");
            if !ok {
                rep.violation(format!("result|{}", l.name), format!("{}: wrong kind of result for {n} bytes", l.name));
            }
        }
        let (n, p) = seen[2];
        let extra = p - seen[0].1;
        rep.sample(|| format!("{}: bytes taken during a call by length of the input: {seen:?}", l.name));
        if extra > l.owned * (n + n / 4) + n / 4 {
            rep.violation(format!("takes|{}", l.name), format!("{}: (length, bytes taken during the call) {seen:?}, although only {} copies are part of the result", l.name, l.owned));
        }
    }
}

fn main() {
    quiet_panics();
    watchdog("P23", 240);
    let mut rep = Report::new("P23");
    generated(&mut rep);
    never_seen(&mut rep);
    long_inputs(&mut rep);
    threads(&mut rep);
    rep.finish();
}
