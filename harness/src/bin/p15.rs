#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use monlib::spec::Outcome;
use sscanf::regex::Regex;
use sscanf::{sscanf, sscanf_get_regex, sscanf_unescaped, FromScanf, RegexRepresentation};
use std::cell::{Cell, RefCell};
use std::sync::mpsc;
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P15.rs"));
}
const THREADS: usize = 8;

fn bad(rep: &mut Report, what: &str, call: &str, input: &str, got: &Obs, want: &str) {
    rep.violation(
        format!("{what}|{call}|{input}"),
        format!("{what}: {call}\non {input:?}\nexpected {want}\n     got {got:?}"),
    );
}
/// runs `f(thread, report)` in that many threads at once
fn threads(rep: &mut Report, n: usize, f: impl Fn(usize, &mut Report) + Sync) {
    let f = &f;
    let all: Vec<Report> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..n)
            .map(|t| {
                s.spawn(move || {
                    let mut r = Report::new("P15");
                    f(t, &mut r);
                    r
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in all {
        rep.merge(r);
    }
}

/// Every generated call is used for the first time by several threads at once, in an order of this round
fn first_uses(rep: &mut Report, round: u64) {
    let plan = plan::plan("P15", seed(), thorough());
    let mut r = Rng::new(seed(), &format!("first-{round}"));
    let mut order: Vec<usize> = (0..gen::SITES.len()).collect();
    r.shuffle(&mut order);
    let work: Vec<(usize, Vec<(String, Outcome)>)> = order
        .into_iter()
        .map(|i| {
            let model = plan.ctx.compile(&plan.sites[i].fmt);
            let inputs = (0..4).map(|_| model.input(&mut r)).map(|s| (s.clone(), model.run_full(&s).0)).collect();
            (i, inputs)
        })
        .collect();
    let n = [THREADS, 2, 4][round as usize % 3];
    let stagger = r.range(0, 4) * 30;
    let barrier = Barrier::new(n);
    let seen = Mutex::new(vec![]);
    threads(rep, n, |t, rep| {
        for (i, inputs) in &work {
            let regex = || {
                if let Some(w) = &gen::REGEXES[*i] {
                    let p = caught(w.get).map_or(0, |r| r as *const Regex as usize);
                    seen.lock().unwrap().push((*i, p));
                }
            };
            barrier.wait();
            for _ in 0..t * stagger {
                std::hint::spin_loop();
            }
            if t % 2 == 0 {
                regex();
            }
            for k in 0..inputs.len() {
                let (input, want) = &inputs[(k + t) % inputs.len()];
                let (got, _) = observe(gen::SITES[*i], input);
                rep.eval(spec::hash_str(&format!("{i}\u{0}{input}\u{0}{round}")), !input.is_empty());
                rep.count(if k == 0 { "simultaneous first uses" } else { "calls right after the first use" });
                if !run::agrees(&got, want) {
                    bad(rep, "simultaneous first use", &plan.sites[*i].call, input, &got, &format!("{want:?}"));
                }
            }
            regex();
        }
    });
    let seen = seen.into_inner().unwrap();
    rep.add("regexes compared between threads", seen.len() as u64);
    for (i, p) in &seen {
        if *p == 0 || *p != seen.iter().find(|(j, _)| j == i).unwrap().1 {
            let c = &plan.sites[*i].call;
            rep.violation(format!("regex|{c}"), format!("threads see different regexes: {c}"));
            break;
        }
    }
}

/// All threads go through all generated calls in random orders; the inputs are at the same address
fn histories(rep: &mut Report) {
    let plan = plan::plan("P15", seed(), thorough());
    let work: Vec<Vec<(String, Outcome)>> = (0..gen::SITES.len())
        .map(|i| {
            let mut r = Rng::new(seed(), &format!("history-{i}"));
            let model = plan.ctx.compile(&plan.sites[i].fmt);
            let mut last = String::new();
            (0..tiered(12, 40))
                .map(|k| {
                    last = if k > 0 && r.chance(1, 4) { monlib::gen::mutate(&last, &mut r) } else { model.input(&mut r) };
                    (last.clone(), model.run_full(&last).0)
                })
                .collect()
        })
        .collect();
    threads(rep, THREADS, |t, rep| {
        let mut r = Rng::new(seed(), &format!("order-{t}"));
        let mut buffer = String::with_capacity(100_000);
        let mut i = 0;
        for step in 0..tiered(12_000, 150_000) {
            // stays at a call for some time
            if r.chance(2, 3) {
                i = r.range(0, work.len() - 1);
            }
            let (input, want) = r.pick(&work[i]);
            buffer.clear();
            buffer.push_str(input);
            let (got, _) = observe(gen::SITES[i], &buffer);
            rep.count("steps of random histories");
            rep.eval(spec::hash_str(&format!("{i}\u{0}{input}")), !input.is_empty());
            if !run::agrees(&got, want) {
                bad(rep, &format!("step {step} of a history"), &plan.sites[i].call, input, &got, &format!("{want:?}"));
            }
        }
    });
}

// ------------------------------------------- calls that can be blocked, re-entered and made to panic

thread_local! {
    static HOOK: RefCell<Option<std::rc::Rc<dyn Fn(&str)>>> = const { RefCell::new(None) };
}
/// the input expression of the calls
fn arg(i: &str) -> &str {
    assert!(!i.starts_with('!'), "panic in the input");
    i
}
fn convert(s: &str) -> Option<String> {
    if let Some(h) = HOOK.with(|h| h.borrow().clone()) {
        h(s);
    }
    assert!(!s.contains('P'), "panic in a conversion");
    (!s.contains('X')).then(|| s.to_string())
}
struct Hooked(String);
impl std::str::FromStr for Hooked {
    type Err = std::fmt::Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        convert(s).map(Hooked).ok_or(std::fmt::Error)
    }
}
impl RegexRepresentation for Hooked {
    const REGEX: &'static str = "[a-zA-Z0-9]+";
}
struct Groups<'t>(&'t str);
impl RegexRepresentation for Groups<'_> {
    const REGEX: &'static str = "([a-zA-Z0-9])([a-zA-Z0-9]*)";
}
impl<'t> FromScanf<'t> for Groups<'t> {
    type Err = std::fmt::Error;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {
        let all = src.next().unwrap().unwrap().as_str();
        let a = src.next().unwrap().unwrap().as_str();
        let b = src.next().unwrap().unwrap().as_str();
        assert_eq!(format!("{a}{b}"), all);
        convert(all).map(|_| Groups(all)).ok_or(std::fmt::Error)
    }
}
/// what all of these calls have to do
fn want(i: &str) -> Obs {
    if i.starts_with('!') {
        return Obs::Panic("panic in the input".into());
    }
    run::by_regex(r"([+]?[0-9]{1,3})-([a-zA-Z0-9]+)", i, |g| {
        let n: u8 = g[1].parse().ok()?;
        (!g[2].contains('X')).then(|| vec![format!("{n}:{}", g[2])])
    })
}
/// with the panics in conversions
fn want_full(i: &str) -> Obs {
    match want(i) {
        Obs::MatchFailed => Obs::MatchFailed,
        w => match i.split_once('-') {
            Some((n, t)) if n.parse::<u8>().is_ok() && t.contains('P') && !i.starts_with('!') => Obs::Panic("panic in a conversion".into()),
            _ => w,
        },
    }
}
fn two(r: Result<(u8, String), sscanf::Error>) -> Obs {
    obs(r.map(|(n, s)| One(format!("{n}:{s}"))))
}
struct One(String);
impl Show for One {
    fn show(&self) -> String {
        self.0.clone()
    }
}
pub struct Call {
    name: &'static str,
    f: fn(&str) -> Obs,
}
type Calls = (Vec<Call>, fn() -> &'static Regex);

macro_rules! copies {
    ($($m:ident)*) => {
        $( mod $m {
            use super::*;
            #[derive(FromScanf)] #[sscanf("{n}-{w}")] struct S { w: Hooked, n: u8 }
            #[derive(FromScanf)] #[sscanf("{}-{}")] struct F(u8, #[sscanf(filter_map = |h: String| convert(&h))] String);
            #[derive(FromScanf)] #[sscanf("{}-{w:/[a-zA-Z0-9]+/}")] struct T { n: u8, #[sscanf(try_from = String)] w: Tried }
            struct Tried(String);
            impl TryFrom<String> for Tried { type Error = std::fmt::Error; fn try_from(s: String) -> Result<Self, std::fmt::Error> { convert(&s).map(Tried).ok_or(std::fmt::Error) } }
            #[derive(FromScanf)] enum E { #[sscanf("{}={}")] A(u8, Hooked), #[sscanf("{}-{}")] B(u8, Hooked), #[sscanf("{}-{w}")] C { n: u8, w: Hooked } }
            #[derive(FromScanf)] #[sscanf("{}-{}")] struct M(u8, #[sscanf(map = |h: String| h)] String, #[sscanf(default = { if let Some(h) = HOOK.with(|h| h.borrow().clone()) { h("default") } 1u8 })] u8);
            #[derive(FromScanf)] #[sscanf("{}")] struct N(S);
            fn e(e: E) -> (u8, String) { match e { E::A(..) => panic!("variant A"), E::B(n, w) => (n, w.0), E::C { .. } => panic!("variant C") } }
            pub fn calls() -> Calls {
                (vec![
                    Call { name: "sscanf!", f: |i| two(sscanf!(arg(i), "{}-{Hooked}", u8).map(|(n, w)| (n, w.0))) },
                    Call { name: "sscanf! with groups", f: |i| two(sscanf!(arg(i), "{}-{}", u8, Groups).map(|(n, w)| (n, w.0.to_string()))) },
                    Call { name: "sscanf_unescaped!", f: |i| two(sscanf_unescaped!(arg(i), "{}[-]{:/[a-zA-Z0-9]+/}", u8, Hooked).map(|(n, w)| (n, w.0))) },
                    Call { name: "derived struct", f: |i| two(sscanf!(arg(i), "{S}").map(|s| (s.n, s.w.0))) },
                    Call { name: "derived struct, direct", f: |i| two(S::from_str(arg(i)).map(|s| (s.n, s.w.0))) },
                    Call { name: "tried conversion", f: |i| two(sscanf!(arg(i), "{T}").map(|s| (s.n, s.w.0))) },
                    Call { name: "tried conversion, direct", f: |i| two(T::from_str(arg(i)).map(|s| (s.n, s.w.0))) },
                    Call { name: "enum", f: |i| two(sscanf!(arg(i), "{E}").map(e)) },
                    Call { name: "enum, direct", f: |i| two(E::from_str(arg(i)).map(e)) },
                    Call { name: "nested", f: |i| two(sscanf!(arg(i), "{}", N).map(|s| (s.0.n, s.0.w.0))) },
                    Call { name: "nested, direct", f: |i| two(N::from_str(arg(i)).map(|s| (s.0.n, s.0.w.0))) },
                ], || sscanf_get_regex!("{}-{Hooked}", u8))
            }
        } )*
        fn copies() -> Vec<Calls> { vec![$($m::calls()),*] }
    };
}
copies!(m0 m1 m2 m3 m4 m5 m6 m7 m8 m9 m10 m11 m12 m13 m14 m15 m16 m17 m18 m19 m20 m21 m22 m23 m24 m25 m26 m27 m28 m29 m30 m31);

fn hand(rep: &mut Report, what: &str, c: &Call, input: &str) {
    let got = observe(c.f, input).0;
    let w = want_full(input);
    rep.count(&format!("{what}: calls"));
    rep.eval(spec::hash_str(&format!("{what}\u{0}{}\u{0}{input}", c.name)), !input.is_empty());
    let same = match (&got, &w) {
        (Obs::Panic(g), Obs::Panic(w)) => g.contains(w.as_str()),
        (Obs::ParsingFailed(_), Obs::ParsingFailed(_)) => true,
        (a, b) => a == b,
    };
    if !same {
        bad(rep, what, c.name, input, &got, &format!("{w:?}"));
    }
}
const SOME: &[&str] = &["1-a", "22-bc", "+7-x1", "300-a", "5-aX", "9-", "", "-a", "7-a b", "255-Z", "256-P", "1-a-", "12-a\n"];

fn after_panics(rep: &mut Report, copies: &[Calls]) {
    for (k, (calls, get)) in copies.iter().enumerate() {
        for c in calls {
            // the very first use
            hand(rep, "panic in the first use", c, ["1-P", "!1-a", "1-aP", "!"][k % 4]);
            if k % 3 == 0 {
                hand(rep, "panic in the first use", c, "2-PPP");
            }
            for s in SOME {
                hand(rep, "after a panic", c, s);
            }
            std::thread::scope(|s| {
                s.spawn(|| {
                    let mut r = Report::new("P15");
                    for s in SOME {
                        hand(&mut r, "after a panic in another thread", c, s);
                    }
                    hand(&mut r, "after a panic in another thread", c, "3-P");
                    r
                })
                .join()
            })
            .map(|r| rep.merge(r))
            .unwrap();
            for s in SOME {
                hand(rep, "after a panic", c, s);
            }
        }
        let p = get() as *const Regex as usize;
        if std::thread::spawn({ let get = *get; move || get() as *const Regex as usize }).join().unwrap() != p {
            rep.violation("regex", "another thread sees another regex");
        }
    }
}

/// While one thread is inside of a conversion, others use the same call
fn blocked(rep: &mut Report, copies: &[Calls], first: bool) {
    for (calls, _) in copies {
        for c in calls {
            if !first {
                hand(rep, "before blocking", c, "1-a");
            }
            let (in_tx, in_rx) = mpsc::channel::<()>();
            let (out_tx, out_rx) = mpsc::channel::<()>();
            let (done_tx, done_rx) = mpsc::channel::<Report>();
            let f = Arc::new(Call { name: c.name, f: c.f });
            let g = f.clone();
            let inside = std::thread::spawn(move || {
                HOOK.with(|h| {
                    let once = Cell::new(false);
                    *h.borrow_mut() = Some(std::rc::Rc::new(move |_: &str| {
                        if !once.replace(true) {
                            in_tx.send(()).unwrap();
                            out_rx.recv_timeout(Duration::from_secs(40)).ok();
                        }
                    }))
                });
                let mut r = Report::new("P15");
                hand(&mut r, "the blocked call", &g, "21-inside");
                r
            });
            if in_rx.recv_timeout(Duration::from_secs(20)).is_err() {
                rep.violation(format!("not called|{}", c.name), format!("{}: the conversion was not reached", c.name));
                return;
            }
            let g = f.clone();
            let other = std::thread::spawn(move || {
                let mut r = Report::new("P15");
                for s in SOME {
                    hand(&mut r, "while another thread is inside of the same call", &g, s);
                }
                done_tx.send(r).ok();
            });
            match done_rx.recv_timeout(Duration::from_secs(15)) {
                Ok(r) => rep.merge(r),
                Err(_) => {
                    rep.violation(
                        format!("blocked|{}", c.name),
                        format!("{}: a call waits for the conversion of another thread's call (first use: {first})", c.name),
                    );
                    out_tx.send(()).ok();
                    return;
                }
            }
            out_tx.send(()).ok();
            rep.merge(inside.join().unwrap());
            other.join().unwrap();
        }
    }
}

/// A conversion that uses the same call again
fn reentrant(rep: &mut Report, copies: &[Calls]) {
    for (calls, _) in copies {
        for (k, c) in calls.iter().enumerate() {
            let (tx, rx) = mpsc::channel();
            let (name, f) = (c.name, c.f);
            std::thread::spawn(move || {
                let rep = std::rc::Rc::new(RefCell::new(Report::new("P15")));
                let depth = Cell::new(0);
                let r2 = rep.clone();
                HOOK.with(|h| {
                    *h.borrow_mut() = Some(std::rc::Rc::new(move |s: &str| {
                        let d = depth.get();
                        if d < 12 {
                            depth.set(d + 1);
                            let s = format!("{d}-{s}{}", ["a", "", "X", "b"][(d + k) % 4]);
                            let mut r = Report::new("P15");
                            hand(&mut r, "inside of the same call", &Call { name, f }, &s);
                            hand(&mut r, "inside of the same call", &Call { name, f }, "nothing");
                            r2.borrow_mut().merge(r);
                        }
                    }))
                });
                let mut r = Report::new("P15");
                hand(&mut r, "around the same call", &Call { name, f }, "1-outer");
                HOOK.with(|h| *h.borrow_mut() = None);
                r.merge(std::rc::Rc::try_unwrap(rep).ok().unwrap().into_inner());
                tx.send(r).ok();
            });
            match rx.recv_timeout(Duration::from_secs(20)) {
                Ok(r) => rep.merge(r),
                Err(_) => {
                    rep.violation(format!("reentrant|{name}"), format!("{name}: a conversion that uses the same call does not end"));
                    return;
                }
            }
        }
    }
}

struct AtExit(Vec<fn(&str) -> Obs>, mpsc::Sender<Obs>);
impl Drop for AtExit {
    fn drop(&mut self) {
        for f in &self.0 {
            // no thread-locals of the harness are used here
            self.1.send(caught_plain(|| f("7-end"))).ok();
        }
    }
}
fn caught_plain(f: impl FnOnce() -> Obs) -> Obs {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(Obs::Panic("panic".into()))
}
thread_local! {
    static LAST: RefCell<Option<AtExit>> = const { RefCell::new(None) };
}
#[derive(FromScanf)]
#[sscanf("{n}-{w}")]
struct Plain {
    n: u8,
    w: String,
}
#[derive(FromScanf)]
enum PlainE {
    #[sscanf("{}-{}")]
    A(u8, String),
}
/// Many threads that end at once, and calls while a thread ends
fn short_threads(rep: &mut Report, copies: &[Calls]) {
    for (calls, _) in copies {
        for _ in 0..tiered(3, 20) {
            threads(rep, 24, |t, rep| hand(rep, "short threads", &calls[t % calls.len()], SOME[t % SOME.len()]));
        }
    }
    for _ in 0..20 {
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            LAST.with(|l| {
                *l.borrow_mut() = Some(AtExit(
                    vec![
                        |i| two(sscanf!(i, "{}-{}", u8, String)),
                        |i| two(sscanf!(i, "{}", Plain).map(|p| (p.n, p.w))),
                        |i| two(Plain::from_str(i).map(|p| (p.n, p.w))),
                        |i| two(PlainE::from_str(i).map(|PlainE::A(n, w)| (n, w))),
                        |i| two(Plain::from_str(&format!("{i}!\n")).map(|p| (p.n, p.w))),
                    ],
                    tx,
                ))
            })
        })
        .join()
        .unwrap();
        let got: Vec<Obs> = rx.iter().collect();
        let w = ok(&["7:end"]);
        if got != [w.clone(), w.clone(), w.clone(), w, Obs::MatchFailed] {
            rep.violation("thread end", format!("calls while a thread ends gave {got:?}"));
        }
        rep.add("calls while a thread ends", got.len() as u64);
    }
}
/// Calls made by a `Drop` that runs because of a panic: the first use of a call and later ones
struct InDrop<'a>(&'a [fn(&str) -> Obs], &'a RefCell<Vec<Obs>>, u32);
impl Drop for InDrop<'_> {
    fn drop(&mut self) {
        assert!(std::thread::panicking());
        for f in self.0 {
            for i in ["7-end", "300-x", "7-", "7-end"] {
                self.1.borrow_mut().push(caught_plain(|| f(i)));
            }
        }
        if self.2 > 0 {
            // a panic and its end inside of the other one
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _g = InDrop(self.0, self.1, self.2 - 1);
                std::panic::resume_unwind(Box::new("inner"));
            }))
            .unwrap_err();
        }
    }
}
fn unwinding(rep: &mut Report) {
    macro_rules! calls { () => { &[
        |i| two(sscanf!(i, "{}-{}", u8, String)),
        |i| two(sscanf!(i, "{}-{}", u8, str).map(|(n, w)| (n, w.to_string()))),
        |i| two(sscanf_unescaped!(i, "{}[-]{}", u8, String)),
        |i| two(sscanf!(i, "{}", Plain).map(|p| (p.n, p.w))),
        |i| two(Plain::from_str(i).map(|p| (p.n, p.w))),
        |i| two(PlainE::from_str(i).map(|PlainE::A(n, w)| (n, w))),
    ] }; }
    let sets: [(&str, &[fn(&str) -> Obs]); 3] = [("first used during a panic", calls!()), ("used before", calls!()), ("on several threads", calls!())];
    let want = [ok(&["7:end"]), Obs::ParsingFailed(String::new()), Obs::MatchFailed, ok(&["7:end"])];
    let same = |a: &Obs, b: &Obs| matches!((a, b), (Obs::ParsingFailed(_), Obs::ParsingFailed(_))) || a == b;
    let judge = |rep: &mut Report, name: &str, got: &[Obs]| {
        for (k, g) in got.iter().enumerate() {
            if !same(g, &want[k % 4]) {
                rep.violation(format!("unwinding|{name}"), format!("calls during a panic, {name}: use number {k} gave {g:?}, not {:?}", want[k % 4]));
                break;
            }
        }
        rep.add("calls during a panic", got.len() as u64);
    };
    let in_panic = |set: &[fn(&str) -> Obs]| {
        let got = RefCell::new(vec![]);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = InDrop(set, &got, 2);
            std::panic::resume_unwind(Box::new("outer"));
        }))
        .unwrap_err();
        got.into_inner()
    };
    let plainly = |set: &[fn(&str) -> Obs]| -> Vec<Obs> { set.iter().flat_map(|f| ["7-end", "300-x", "7-", "7-end"].map(|i| caught_plain(|| f(i)))).collect() };
    judge(rep, sets[0].0, &in_panic(sets[0].1));
    judge(rep, "after the panic", &plainly(sets[0].1));
    judge(rep, "before the panic", &plainly(sets[1].1));
    judge(rep, sets[1].0, &in_panic(sets[1].1));
    threads(rep, THREADS, |_, rep| {
        for _ in 0..tiered(10, 100) {
            judge(rep, sets[2].0, &in_panic(sets[2].1));
            judge(rep, "after the panic", &plainly(sets[2].1));
        }
    });
}
/// Long random histories with panics, at the same address
fn long(rep: &mut Report, calls: &[Call]) {
    threads(rep, THREADS, |t, rep| {
        let mut r = Rng::new(seed(), &format!("long-{t}"));
        let mut buffer = String::with_capacity(1000);
        for _ in 0..tiered(4_000, 60_000) {
            buffer.clear();
            match r.range(0, 11) {
                0 => buffer.push_str(["1-P", "!", "!1-a", "200-abP", "300-P"][r.range(0, 4)]),
                1 => buffer.push_str(*r.pick(SOME)),
                _ => {
                    let n = r.range(0, 300);
                    buffer.push_str(&format!("{n}-{}", *r.pick(&["a", "bb", "c1", "X", "0", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "a\u{e9}", ""])));
                }
            }
            hand(rep, "long histories", r.pick(calls), &buffer);
        }
    });
    // one call, very often
    threads(rep, calls.len().min(THREADS), |t, rep| {
        let (mut wrong, n) = (0, tiered(70_000, 300_000));
        let w: Vec<Obs> = SOME.iter().map(|s| want_full(s)).collect();
        for k in 0..n {
            let j = if k % 97 == 0 { 2 } else { k % 2 };
            let got = (calls[t].f)(SOME[j]);
            if got != w[j] && wrong == 0 {
                wrong = 1;
                bad(rep, &format!("use number {k} of a call"), calls[t].name, SOME[j], &got, &format!("{:?}", w[j]));
            }
        }
        rep.add("uses of one call in a row", n as u64);
    });
}

// the same format at several places, with other types or other meaning
mod other {
    #[derive(sscanf::FromScanf)]
    #[sscanf("b{}")]
    pub struct Same(pub u8);
}
#[derive(FromScanf)]
#[sscanf("a{}")]
struct Same(u8);
fn same_formats(rep: &mut Report) {
    fn gen<T: for<'t> FromScanf<'t> + Show>(i: &str) -> Obs {
        obs(sscanf!(i, "{}", u8).map(|n| One(format!("{n}"))))
    }
    let calls: Vec<(&str, fn(&str) -> Obs, fn(&str) -> bool)> = vec![
        ("u8", |i| obs(sscanf!(i, "{}", u8).map(|x| One(x.to_string()))), |i| i.parse::<u8>().is_ok()),
        ("i8", |i| obs(sscanf!(i, "{}", i8).map(|x| One(x.to_string()))), |i| i.parse::<i8>().is_ok()),
        ("str", |i| obs(sscanf!(i, "{}", str).map(|x| One(x.to_string()))), |i| !i.is_empty()),
        ("char", |i| obs(sscanf!(i, "{}", char).map(|x| One(x.to_string()))), |i| i.chars().count() == 1),
        ("u8 hex", |i| obs(sscanf!(i, "{:x}", u8).map(|x| One(x.to_string()))), |i| u8::from_str_radix(i, 16).is_ok()),
        ("u8 bin", |i| obs(sscanf!(i, "{:b}", u8).map(|x| One(x.to_string()))), |i| u8::from_str_radix(i, 2).is_ok()),
        ("Same", |i| obs(sscanf!(i, "{Same}").map(|x| One(x.0.to_string()))), |i| i.starts_with('a') && i[1..].parse::<u8>().is_ok()),
        ("other::Same", |i| obs(sscanf!(i, "{}", other::Same).map(|x| One(x.0.to_string()))), |i| i.starts_with('b') && i[1..].parse::<u8>().is_ok()),
        ("other::Same", |i| { use other::Same; obs(sscanf!(i, "{Same}").map(|x| One(x.0.to_string()))) }, |i| i.starts_with('b') && i[1..].parse::<u8>().is_ok()),
        ("local Same", |i| {
            #[derive(FromScanf)]
            #[sscanf("c{}")]
            struct Same(u8);
            obs(sscanf!(i, "{Same}").map(|x| One(x.0.to_string())))
        }, |i| i.starts_with('c') && i[1..].parse::<u8>().is_ok()),
        ("Same direct", |i| obs(Same::from_str(i).map(|x| One(x.0.to_string()))), |i| i.starts_with('a') && i[1..].parse::<u8>().is_ok()),
        ("other::Same direct", |i| obs(other::Same::from_str(i).map(|x| One(x.0.to_string()))), |i| i.starts_with('b') && i[1..].parse::<u8>().is_ok()),
        ("escaped", |i| obs(sscanf!(i, "a.*").map(|_| One(String::new()))), |i| i == "a.*"),
        ("unescaped", |i| obs(sscanf_unescaped!(i, "a.*").map(|_| One(String::new()))), |i| i.starts_with('a')),
        ("generic u8", gen::<u8>, |i| i.parse::<u8>().is_ok()),
        ("generic str", gen::<String>, |i| i.parse::<u8>().is_ok()),
    ];
    let inputs = ["5", "-5", "a5", "b5", "c5", "f", "fF", "11", "102", "2", "a.*", "axyz", "\u{e9}", "a", "", "a300", "+7"];
    threads(rep, THREADS, |t, rep| {
        let mut r = Rng::new(seed(), &format!("same-{t}"));
        for _ in 0..tiered(2_000, 20_000) {
            let (name, f, accepts) = r.pick(&calls);
            let input = *r.pick(&inputs);
            let got = caught(|| f(input)).unwrap_or_else(Obs::Panic);
            rep.count("same format at different places");
            rep.eval(spec::hash_str(&format!("{name}{input}")), true);
            if matches!(got, Obs::Ok(_)) != accepts(input) || matches!(got, Obs::Panic(_)) {
                bad(rep, "same format at different places", name, input, &got, if accepts(input) { "a value" } else { "an error" });
            }
        }
    });
}

fn main() {
    quiet_panics();
    watchdog("P15", 60);
    let mut rep = Report::new("P15");
    if let Ok(round) = std::env::var("P15_ROUND") {
        first_uses(&mut rep, round.parse().unwrap());
        return rep.finish();
    }
    let c = copies();
    after_panics(&mut rep, &c[..6]);
    blocked(&mut rep, &c[6..10], true);
    blocked(&mut rep, &c[10..12], false);
    reentrant(&mut rep, &c[12..15]);
    short_threads(&mut rep, &c[15..31]);
    unwinding(&mut rep);
    long(&mut rep, &c[31].0);
    same_formats(&mut rep);
    histories(&mut rep);
    if !thorough() || rep.violations.is_empty() {
        let plan = plan::plan("P15", seed(), thorough());
        run_sites(&mut rep, &plan, gen::SITES, &Options { inputs: tiered(300, 4000), neighbours: tiered(1, 10), ..Default::default() });
    }
    rep.finish();
}
