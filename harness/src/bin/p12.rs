#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use monlib::spec::{Outcome, Plan};
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P12.rs"));
}
use sscanf::regex::Regex;

fn top(p: &Plan) -> usize {
    match p {
        Plan::Leaf { cap, .. } | Plan::Manual { cap, .. } | Plan::Def { cap, .. } => *cap,
    }
}

/// the regex of a call next to the outcome of the call
fn check(rep: &mut Report, n: usize, call: &str, model: &spec::Model, f: fn(&str) -> Obs, w: &WithRegex, re: &'static Regex, input: &str) {
    let got = observe(f, input).0;
    let mut bad = vec![];
    let matched = !matches!(got, Obs::MatchFailed);
    if let Obs::Panic(p) = &got {
        bad.push(format!("panic: {p}"));
    }
    let caps = re.captures(input);
    if re.is_match(input) != matched || caps.is_some() != matched {
        bad.push(format!("outcome {got:?}, but is_match is {} and captures is {:?}", re.is_match(input), caps));
    }
    rep.eval(spec::hash_str(&format!("{n}\u{0}{input}")), !input.is_empty() && (matched || input.len() > 1));
    rep.count(if matched { "matched" } else { "not matched" });
    if let Some(caps) = caps {
        let whole = caps.get(0).unwrap();
        if (whole.start(), whole.end()) != (0, input.len()) {
            bad.push(format!("the regex matched only {whole:?}"));
        }
        let mut feed = Feed::default();
        let mut it = caps.iter();
        it.next();
        set_base(input);
        (w.feed)(&mut it, &mut feed);
        take_log();
        rep.add("placeholders fed from the regex", feed.seen.len() as u64);
        let want = model.prog.match_full(input);
        let mut failed = false;
        for (k, (left, own)) in feed.seen.iter().enumerate() {
            let at = caps.len() - left;
            let group = caps.get(at).map(|m| (m.start(), m.end()));
            let expected = want.as_ref().and_then(|w| w[top(&model.plans[k])]);
            rep.count("group positions compared");
            if group != expected {
                bad.push(format!("placeholder {k}: group {at} is {group:?}, the text is {expected:?}"));
            }
            match (own, &got) {
                (Some(Ok(v)), Obs::Ok(all)) if all.get(k) != Some(v) => bad.push(format!("placeholder {k}: its groups give {v}, parsing gave {all:?}")),
                (Some(Err(e)), Obs::Ok(_)) => bad.push(format!("placeholder {k}: its groups give {e}, parsing gave {got:?}")),
                (Some(Err(_)), Obs::ParsingFailed(_)) => failed = true,
                _ => {}
            }
        }
        match feed.left {
            Some(0) => {}
            None if failed => {}
            l => bad.push(format!("groups left: {l:?} of {}", caps.len())),
        }
    }
    if !bad.is_empty() {
        rep.violation(format!("{call}|{input}"), format!("{call}\nregex {:?}\non {input:?}\n{}", re.as_str(), bad.join("\n")));
    } else if matched && n % 41 == 0 {
        rep.sample(|| format!("{call} on {input:?}: regex {} => {got:?}", re.as_str()));
    }
}

fn generic<T>(_: T) -> &'static Regex {
    sscanf::sscanf_get_regex!("{}", u8)
}
fn identity(rep: &mut Report) {
    // the same call gives the same object, every time and in all threads
    let calls: Vec<(&str, fn() -> &'static Regex)> = vec![
        ("{u8}", || sscanf::sscanf_get_regex!("{u8}")),
        ("none", || sscanf::sscanf_get_regex!("none")),
        ("many", || sscanf::sscanf_get_regex!("{}-{}-{:x}", u8, str, u16)),
        ("alias", || sscanf::scanf_get_regex!("{f64}")),
        ("block", || { let r = { sscanf::sscanf_get_regex!("{char}") }; r }),
        ("loop", || { let mut r: Vec<&'static Regex> = vec![]; for _ in 0..3 { r.push(sscanf::sscanf_get_regex!("{bool}")) } assert!(r.iter().all(|x| std::ptr::eq(*x, r[0]))); r[0] }),
        ("generic", || { let a = generic(5u8); assert!(std::ptr::eq(a, generic(6u8))); a }),
        ("const", || { const F: fn() -> &'static Regex = || sscanf::sscanf_get_regex!("{i8}"); F() }),
    ];
    for (name, f) in calls {
        let a: &'static Regex = f();
        let all: Vec<usize> = std::thread::scope(|s| (0..8).map(|_| s.spawn(move || (0..50).map(|_| f() as *const Regex as usize).collect::<Vec<_>>())).collect::<Vec<_>>().into_iter().flat_map(|h| h.join().unwrap()).collect());
        rep.add("repeated evaluations", all.len() as u64);
        rep.eval(spec::hash_str(name), true);
        if all.iter().any(|x| *x != a as *const Regex as usize) {
            rep.violation(format!("identity {name}"), format!("{name}: repeated evaluation of the same call gave different objects"));
        }
    }
}

fn main() {
    quiet_panics();
    watchdog("P12", 60);
    let mut rep = Report::new("P12");
    let plan = plan::plan("P12", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &run::Options { inputs: tiered(150, 1500), neighbours: 1, ..Default::default() });
    parallel(&mut rep, gen::SITES.len(), |n, rep| {
        let Some(w) = &gen::REGEXES[n] else { return };
        let site = &plan.sites[n];
        let model = plan.ctx.compile(&site.fmt);
        let mut r = Rng::new(seed(), &format!("p12-{n}"));
        rep.count("regexes");
        let re = match caught(w.get) {
            Ok(re) => re,
            Err(p) => return rep.violation(format!("{}|", site.call), format!("{}\nno regex: {p}", site.call)),
        };
        if re.capture_names().any(|n| n.is_some()) {
            rep.violation(format!("{}|names", site.call), format!("{}\nnamed groups in {re}", site.call));
        }
        let (mut last, mut near) = (String::new(), 0);
        for k in 0..tiered(500, 5000) {
            let input = if k > 0 && r.chance(1, 5) { monlib::gen::mutate(&last, &mut r) } else { model.input(&mut r) };
            check(rep, n, &site.call, &model, gen::SITES[n], w, re, &input);
            if near < tiered(2, 10) && input.chars().count() < 60 && re.is_match(&input) {
                near += 1;
                for x in neighbours(&input, near == 1 && input.len() < 16, &mut r) {
                    check(rep, n, &site.call, &model, gen::SITES[n], w, re, &x);
                }
            }
            if !std::ptr::eq(re, (w.get)()) {
                rep.violation(format!("{}|identity", site.call), format!("{}\nanother object on evaluation {k}", site.call));
                break;
            }
            last = input;
        }
    });
    identity(&mut rep);
    rep.finish();
}
