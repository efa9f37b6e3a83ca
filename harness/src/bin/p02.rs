#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P02.rs"));
}
mod lits {
    include!(concat!(env!("OUT_DIR"), "/P02L.rs"));
}
fn main() {
    quiet_panics();
    watchdog("P02", 60);
    let mut rep = Report::new("P02");
    let plan = plan::plan("P02", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());
    // here the compiler says what the literal means
    parallel(&mut rep, lits::LITS.len(), |n, rep| {
        let (kind, f, lit) = lits::LITS[n];
        let text = lit.replace("{{", "{").replace("}}", "}");
        let call = format!("{kind} {lit:?}");
        let mut r = Rng::new(seed(), &format!("lits-{n}"));
        let mut one = |rep: &mut Report, input: &str| {
            let want = if input == text { ok(&[]) } else { Obs::MatchFailed };
            rep.count(if input == text { "literal: exact text" } else { "literal: other text" });
            let got = observe(f, input).0;
            expect(rep, &call, input, &got, &want);
        };
        one(rep, &text);
        one(rep, "");
        let near = if text.chars().count() < 40 {
            neighbours(&text, true, &mut r)
        } else {
            let mut v = neighbours(&text, false, &mut r);
            r.shuffle(&mut v);
            v.truncate(tiered(400, 4000));
            v
        };
        for s in near {
            one(rep, &s);
        }
        for pair in [format!("{text}{text}"), lit.to_string(), format!("\n{text}"), format!("{text}\n"), text.to_lowercase(), text.to_uppercase()] {
            one(rep, &pair);
        }
    });
    rep.finish();
}
