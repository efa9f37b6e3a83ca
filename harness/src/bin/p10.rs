#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::{sscanf, sscanf_unescaped, FromScanf, RegexRepresentation};
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P10.rs"));
}
struct Contract {
    d: usize,
    t: usize,
    g: usize,
    strict: bool,
    /// call, input and expected values, where `@` is the text of the manual type
    calls: Vec<(Hand, &'static str, &'static str)>,
}
/// takes `n` groups and remembers their texts
fn take<const STRICT: bool>(src: &mut sscanf::regex::SubCaptureMatches, n: usize) -> String {
    let mut first = None;
    for _ in 0..n {
        let x = src.next();
        if STRICT {
            let _ = x.expect("a group was to be taken, but there are no more");
        }
        let x = x.flatten().map_or("none".to_string(), |m| m.as_str().to_string());
        first.get_or_insert(x);
    }
    first.unwrap()
}
include!(concat!(env!("OUT_DIR"), "/P10B.rs"));

fn main() {
    quiet_panics();
    watchdog("P10", 60);
    let mut rep = Report::new("P10");
    let plan = plan::plan("P10", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());

    let all = contracts();
    parallel(&mut rep, all.len(), |n, rep| {
        let Contract { d, t, g, strict, calls } = &all[n];
        let (d, t, g) = (*d, *t, *g);
        let right = d == t && t == g;
        for (hand, input, want) in calls {
            let direct = hand.call.starts_with('<');
            // not looked at by the direct call if what is taken agrees with what is declared
            if direct && d == t && !right {
                continue;
            }
            let input = input.replace('@', "abc:");
            let values: Vec<String> = want.replace('@', "abc:").replace('§', "@").split(' ').map(|s| s.to_string()).collect();
            // the first use, and later ones
            for round in 0..3 {
                let got = observe(hand.f, &input).0;
                rep.eval(spec::hash_str(&format!("{}{round}", hand.call)), true);
                let fine = match &got {
                    Obs::Ok(v) if right => *v == values,
                    // takes more than there is in the last place: nothing else is shifted
                    Obs::Ok(v) => d == g && t > g && !strict && *v == values,
                    Obs::Panic(m) => !right && m.len() > 10,
                    // the misplaced text could not be converted: not a value either
                    Obs::ParsingFailed(_) => !right,
                    _ => false,
                };
                rep.count(match &got {
                    Obs::Ok(_) if right => "contract: kept, values right",
                    Obs::Ok(_) => "contract: broken without effect",
                    Obs::Panic(_) => "contract: broken, panic",
                    Obs::ParsingFailed(_) => "contract: broken, parsing failure",
                    _ => "contract: other",
                });
                if !fine {
                    rep.violation(
                        format!("{}|{d}{t}{g}{strict}", hand.call),
                        format!(
                            "{}\nwhere the manual type declares {d}, takes {t} and has {g} groups\non {input:?}\nexpected {}\n     got {got:?}",
                            hand.call,
                            if right { format!("{values:?}") } else { "a panic".into() }
                        ),
                    );
                }
                // an input that does not match must not give a value either
                let got = observe(hand.f, "?").0;
                if matches!(got, Obs::Ok(_)) || (right && got != Obs::MatchFailed) {
                    rep.violation(format!("{}|?", hand.call), format!("{}\non \"?\"\ngot {got:?}", hand.call));
                }
            }
        }
    });
    rep.finish();
}
