#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use harness::nums::targets;
use monlib::spec::*;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P04.rs"));
}
fn main() {
    quiet_panics();
    watchdog("P04", 60);
    let mut rep = Report::new("P04");
    let plan = plan::plan("P04", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options { inputs: tiered(400, 4000), neighbours: tiered(2, 10), ..Default::default() });
    let alone: Vec<usize> = (0..plan.sites.len()).filter(|i| plan.sites[*i].group == "alone").collect();
    assert_eq!(alone.len(), 12 * 44);
    parallel(&mut rep, alone.len(), |k, rep| {
        let i = alone[k];
        let site = &plan.sites[i];
        let model = plan.ctx.compile(&site.fmt);
        let Some(Item::Ph(Ph { ty: Ty::Int(int), opt: Opt::Radix(radix, _, _), .. })) = site.fmt.items.first() else { panic!() };
        let mut r = Rng::new(seed(), &format!("targets-{i}"));
        let mut one = |rep: &mut Report, s: &str, what: &str| {
            check_one(rep, i, site, &model, gen::SITES[i], s, &Options::default());
            rep.count(what);
        };
        let prefixes = ["", "0x", "0X", "0o", "0O", "0b", "0B", "x", "0", "00x", "0x0x", "0x-", "0x+", "0b0o", "#", "0r"];
        let signs = ["", "+", "-", "--", "+-", "-+", "++", "−", " ", "- "];
        for d in targets(int, *radix, &mut r) {
            for p in ["", "0x", "0X", "0o", "0O", "0b", "0B"] {
                for s in ["", "+", "-"] {
                    one(rep, &format!("{s}{p}{d}"), "values around the limits");
                }
            }
        }
        for p in prefixes {
            for s in signs {
                for d in ["", "0", "1", "10", "_1", "1_0", "1 ", " 1", "1\n", "１", "1.0", "1e1", "1u8", "\u{212a}", "\u{17f}", "ı", "é", "\0"] {
                    one(rep, &format!("{s}{p}{d}"), "malformed numbers");
                }
            }
        }
        // every ASCII character, alone and next to digits
        for c in 0u8..128 {
            let c = c as char;
            for s in [format!("{c}"), format!("1{c}"), format!("{c}1"), format!("0{c}"), format!("0{c}1"), format!("-{c}"), format!("+0x{c}"), format!("0x{c}"), format!("0b{c}"), format!("0o1{c}")] {
                one(rep, &s, "every ASCII character");
            }
        }
        // and everything that is a letter or digit somewhere or folds to one
        let step = if thorough() { 1 } else { 7 };
        for c in (0x80u32..0x2_0000).skip(k % step).step_by(step).filter_map(char::from_u32).filter(|c| c.is_alphanumeric()) {
            one(rep, &format!("{c}"), "non-ASCII letters and digits");
        }
        if thorough() || k % 8 == seed() as usize % 8 {
            let a: Vec<char> = ('0'..='9').chain('a'..='z').chain('A'..='Z').chain("+-_ ".chars()).collect();
            for x in &a {
                for y in &a {
                    one(rep, &format!("{x}{y}"), "all pairs of characters");
                    one(rep, &format!("0{x}{y}"), "all pairs of characters");
                }
            }
        }
    });
    rep.finish();
}
