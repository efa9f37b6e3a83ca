#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use sscanf::sscanf;
use sscanf::regex::Regex;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P07.rs"));
}

/// one custom regex, in several contexts
struct Exotic {
    /// what the regex is, as the regex crate has to see it
    regex: &'static str,
    alone: [Hand; 2],
    derived: Hand,
    /// `<{}>`, `{},{}` (twice), `{u8}{}{u8}`
    around: [Hand; 4],
    inputs: &'static [&'static str],
}
include!(concat!(env!("OUT_DIR"), "/P07X.rs"));

fn want(re: &Regex, input: &str, shown: impl Fn(usize, std::ops::Range<usize>) -> String) -> Obs {
    match re.captures(input) {
        None => Obs::MatchFailed,
        Some(c) => Obs::Ok((1..c.len()).map(|i| shown(i, c.get(i).unwrap().range())).collect()),
    }
}

fn main() {
    quiet_panics();
    watchdog("P07", 60);
    let mut rep = Report::new("P07");
    let plan = plan::plan("P07", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());

    let all = exotics();
    parallel(&mut rep, all.len(), |n, rep| {
        let e = &all[n];
        let mut r = Rng::new(seed(), &format!("exotic-{n}"));
        let g = format!("(?:{}\n)", e.regex);
        let g = if Regex::new(&format!("(?:{})", e.regex)).is_ok() { format!("(?:{})", e.regex) } else { g };
        let s = |_i: usize, r: std::ops::Range<usize>, input: &str| { let a = r.start; format!("str@{}:{}", a, &input[r]) };
        let whole = Regex::new(&format!("^({g})$")).unwrap();
        let mut inputs: Vec<String> = e.inputs.iter().map(|s| s.to_string()).collect();
        for i in e.inputs {
            let mut v = neighbours(i, i.len() < 8, &mut r);
            r.shuffle(&mut v);
            v.truncate(tiered(300, 3000));
            inputs.extend(v);
        }
        inputs.push(String::new());
        let ctx: Vec<Regex> = [
            format!("^<({g})>$"),
            format!("^({g}),({g})$"),
            format!("^(\\+?\\d{{1,3}})({g})(\\+?\\d{{1,3}})$"),
            format!("^A\\.({g})B\\|c$"),
        ]
        .iter()
        .map(|s| Regex::new(s).unwrap())
        .collect();
        for i in &inputs {
            let w = want(&whole, i, |k, r| s(k, r, i));
            rep.count(if w == Obs::MatchFailed { "exotic: rejected" } else { "exotic: taken" });
            for h in &e.alone {
                expect(rep, h.call, i, &observe(h.f, i).0, &w);
            }
            let w = match w {
                Obs::Ok(v) => ok(&[&format!("D({})", v[0])]),
                w => w,
            };
            expect(rep, e.derived.call, i, &observe(e.derived.f, i).0, &w);
        }
        let mut round: Vec<String> = inputs.iter().take(tiered(150, 1500)).cloned().collect();
        for i in e.inputs {
            round.push(i.to_string());
        }
        for i in &round {
            let other = r.pick(&round[..]).clone();
            let cases = [
                format!("<{i}>"),
                format!("{i},{other}"),
                format!("{}{i}{}", r.below(300), r.below(300)),
                format!("A.{i}B|c"),
            ];
            for k in 0..4 {
                for input in [cases[k].clone(), monlib::gen::mutate(&cases[k], &mut r)] {
                    let w = want(&ctx[k], &input, |c, r| {
                        if k == 2 && c != 2 {
                            format!("u8:{}", input[r].parse::<u16>().unwrap_or(999))
                        } else {
                            s(c, r, &input)
                        }
                    });
                    let w = match w {
                        Obs::Ok(v) if v.iter().any(|s| s.strip_prefix("u8:").map_or(false, |n| n.parse::<u8>().is_err())) => {
                            Obs::ParsingFailed(String::new())
                        }
                        w => w,
                    };
                    rep.count("exotic in context");
                    expect(rep, e.around[k].call, &input, &observe(e.around[k].f, &input).0, &w);
                }
            }
        }
        rep.sample(|| format!("{}: {} inputs", e.alone[0].call, inputs.len()));
    });
    rep.finish();
}
