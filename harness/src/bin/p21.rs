#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use monlib::unesc::{template, unescaped};
use sscanf::regex::Regex;
use sscanf::{sscanf, sscanf_unescaped};
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P21.rs"));
}

/// one regex with placeholders, in several contexts
struct HandWritten {
    n: usize,
    alone: [Hand; 3],
    derived: [Hand; 3],
    /// `<{}>{u8}`, `(?:<|x){}>{u8}`
    around: [Hand; 2],
}
include!(concat!(env!("OUT_DIR"), "/P21X.rs"));

/// what a whole regex gives: the texts of the groups, as values
fn want(re: &Regex, kinds: &[char], input: &str) -> Obs {
    let Some(c) = re.captures(input) else { return Obs::MatchFailed };
    let mut v = vec![];
    for (k, m) in kinds.iter().zip(c.iter().skip(1)) {
        let m = m.expect("harness: a placeholder did not take part");
        v.push(match k {
            'u' => match m.as_str().parse::<u8>() {
                Ok(n) => n.show(),
                Err(_) => return Obs::ParsingFailed(String::new()),
            },
            _ => format!("str@{}:{}", m.start(), m.as_str()),
        });
    }
    Obs::Ok(v)
}
fn derived(o: Obs, fields: usize) -> Obs {
    match o {
        Obs::Ok(mut v) => {
            let rest = v.split_off(fields);
            let mut w = vec![format!("D({})", v.join(","))];
            w.extend(rest);
            Obs::Ok(w)
        }
        o => o,
    }
}

fn main() {
    quiet_panics();
    watchdog("P21", 60);
    let mut rep = Report::new("P21");
    let plan = plan::plan("P21", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());

    let all = hand_written();
    let texts = unescaped();
    parallel(&mut rep, all.len(), |k, rep| {
        let h = &all[k];
        let (re, inputs) = &texts[h.n];
        let mut r = Rng::new(seed(), &format!("unescaped-{k}"));
        let kinds: Vec<char> = re.match_indices("⟨").map(|(i, _)| &re[i + '⟨'.len_utf8()..]).filter(|s| s.starts_with("u8⟩") || s.starts_with("str⟩")).map(|s| s.chars().next().unwrap()).collect();
        let plain = re.replace("⟨u8⟩", "(\\+?\\d{1,3})").replace("⟨str⟩", "(.+?)");
        let whole = Regex::new(&format!("^(?:{plain})$")).unwrap();
        let ctx = [Regex::new(&format!("^<(?:{plain})>(\\+?\\d{{1,3}})$")).unwrap(), Regex::new(&format!("^(?:<|x)(?:{plain})>(\\+?\\d{{1,3}})$")).unwrap()];
        let mut more = kinds.clone();
        more.push('u');
        let mut texts: Vec<String> = inputs.iter().map(|s| s.to_string()).collect();
        for i in inputs {
            let mut v = neighbours(i, i.len() < 8, &mut r);
            r.shuffle(&mut v);
            v.truncate(tiered(300, 3000));
            texts.extend(v);
        }
        texts.push(String::new());
        let mut taken = 0;
        for i in &texts {
            let w = want(&whole, &kinds, i);
            rep.count(match &w { Obs::Ok(_) => "hand-written: matched", Obs::MatchFailed => "hand-written: rejected", _ => "hand-written: not converted" });
            taken += matches!(w, Obs::Ok(_)) as usize;
            for c in &h.alone {
                expect(rep, c.call, i, &observe(c.f, i).0, &w);
            }
            let w = derived(w, kinds.len());
            for c in &h.derived {
                expect(rep, c.call, i, &observe(c.f, i).0, &w);
            }
        }
        assert!(taken > 0, "harness: no input matches {re}");
        for i in texts.iter().take(inputs.len() + tiered(100, 1000)) {
            for (k, start) in [(0, "<"), (1, "<"), (1, "x")] {
                let good = format!("{start}{i}>{}", r.below(300));
                for input in [monlib::gen::mutate(&good, &mut r), good] {
                    let w = derived(want(&ctx[k], &more, &input), kinds.len());
                    rep.count("hand-written in context");
                    expect(rep, h.around[k].call, &input, &observe(h.around[k].f, &input).0, &w);
                }
            }
        }
        rep.sample(|| format!("{}: {} inputs, {taken} matched", h.alone[0].call, texts.len()));
    });
    rep.finish();
}
