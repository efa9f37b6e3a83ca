#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::nums::targets;
use harness::*;
use monlib::spec::*;
use sscanf::{sscanf, sscanf_unescaped, FromScanf};
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P14.rs"));
}
/// every integer type with every radix option
mod ints {
    include!(concat!(env!("OUT_DIR"), "/P04.rs"));
}

const ODD: &[char] = &[
    '\0', '\u{1}', '\t', '\n', '\r', '\u{b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', 'é', 'ß', 'İ', 'ı', 'ſ', 'K', 'Å', '²', '½', '٣', '१', '９', '𝟘', '\u{300}',
    '\u{200b}', '\u{200d}', '\u{202e}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{fdd0}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '🦀', '👨', '\u{e0001}', '\u{10ffff}', '−', '＋', '．',
    '∞', 'Ⅷ', '+', '-', '.', 'e', 'E', '_', '0', '9', 'x', 'b', 'o', 'i', 'n', 'N', '{', '}', '(', ')', '[', ']', '\\', '/', '|', '*', '?', '^', '$', '#', '"', '\'', ' ',
];
/// what is made of one accepted input: enormous, repeated, cut and disturbed ones
fn hostile(s: &str, big: usize, r: &mut Rng) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    // a run of one character at some places
    for _ in 0..4 {
        let at = r.range(0, c.len());
        let x = if c.is_empty() || r.chance(1, 3) { *r.pick(ODD) } else { *r.pick(&c) };
        let n = *r.pick(&[100, 1000, big]);
        let run: String = std::iter::repeat(x).take(n).collect();
        out.push(c[..at].iter().collect::<String>() + &run + &c[at..].iter().collect::<String>());
    }
    // every character becomes a run
    let n = *r.pick(&[2, 3, 40, 400, 2000]);
    out.push(c.iter().take(200).flat_map(|x| std::iter::repeat(*x).take(n)).collect());
    // all of it again and again
    let n = *r.pick(&[2, 3, 100, 1000, 20_000]).min(&(big / s.len().max(1) + 2));
    out.push(s.repeat(n));
    out.push((0..n).map(|k| if k > 0 { format!("\n{s}") } else { s.to_string() }).collect());
    // odd characters everywhere
    for _ in 0..6 {
        let k = r.range(1, 4);
        let mut v = c.clone();
        for _ in 0..k {
            let at = r.range(0, v.len());
            match r.range(0, 2) {
                0 => v.insert(at, *r.pick(ODD)),
                1 if at < v.len() => v[at] = *r.pick(ODD),
                _ if at < v.len() => drop(v.remove(at)),
                _ => {}
            }
        }
        out.push(v.into_iter().collect());
    }
    out.push(s.to_uppercase());
    out.push(s.to_lowercase());
    out.push(s.chars().rev().collect());
    out.push(r.string_of(ODD, 40));
    out
}
trait StringOf {
    fn string_of(&mut self, pool: &[char], max: usize) -> String;
}
impl StringOf for Rng {
    fn string_of(&mut self, pool: &[char], max: usize) -> String {
        (0..self.range(0, max)).map(|_| *self.pick(pool)).collect()
    }
}

fn seen(rep: &mut Report, call: &str, f: fn(&str) -> Obs, input: &str, key: u64) {
    let (got, _) = observe(f, input);
    rep.count(match input.len() {
        0..=99 => "hostile inputs: up to 100 bytes",
        100..=9_999 => "hostile inputs: up to 10 kB",
        10_000..=999_999 => "hostile inputs: up to 1 MB",
        _ => "hostile inputs: 1 MB and more",
    });
    rep.count(match &got {
        Obs::Ok(_) => "hostile: accepted",
        Obs::MatchFailed => "hostile: match_failed",
        Obs::ParsingFailed(_) => "hostile: parsing_failed",
        Obs::Panic(_) => "hostile: panic",
    });
    rep.eval(key ^ spec::hash_str(input), !input.is_empty());
    if let Obs::Panic(p) = got {
        let i = monlib::report::clip(input, 200);
        rep.violation(format!("{call}|{i}"), format!("{call}\non {i:?} ({} bytes)\npanicked: {p}", input.len()));
    }
}

#[derive(FromScanf)]
#[sscanf("{}")]
struct D0(u8);
macro_rules! deep {
    ($($n:ident $i:ident),*) => { $( #[derive(FromScanf)] #[sscanf("{}")] struct $n($i); )* };
}
deep!(D1 D0, D2 D1, D3 D2, D4 D3, D5 D4, D6 D5, D7 D6, D8 D7, D9 D8, D10 D9, D11 D10, D12 D11, D13 D12, D14 D13, D15 D14, D16 D15, D17 D16, D18 D17, D19 D18, D20 D19);
#[derive(FromScanf)]
enum Many {
    #[sscanf("a{}")] A(u8), #[sscanf("b{}")] B(i8), #[sscanf("c{}")] C(f32), #[sscanf("d{}")] D(char), #[sscanf("e{}")] E(bool),
    #[sscanf("f{}{}")] F(u128, i128), #[sscanf("g{}")] G(String), #[sscanf("h{:x}")] H(u16), #[sscanf("i{:#b}")] I(i16), #[sscanf("j{:r7}")] J(u64),
    #[sscanf("k{}")] K(#[sscanf(filter_map = |x: u8| x.checked_sub(200))] u8), #[sscanf("l{}")] L(std::num::NonZeroI8), #[sscanf("m{}")] M(D20),
}
fn unit<T>(r: Result<T, sscanf::Error>) -> Obs {
    if let Err(e) = &r {
        // errors can always be shown
        let s = format!("{e}{e:?}");
        assert!(!s.is_empty());
    }
    obs(r.map(|_| ()))
}
fn large(rep: &mut Report) {
    type F = fn(&str) -> Obs;
    let calls: Vec<(&str, F, String)> = vec![
        ("20 levels", |i| unit(sscanf!(i, "{D20}")), "5".into()),
        ("20 levels, direct", |i| unit(D20::from_str(i)), "5".into()),
        ("many variants", |i| unit(sscanf!(i, "{Many},{Many},{Many}")), "a5,m7,k201".into()),
        ("many variants, direct", |i| unit(Many::from_str(i)), "f1-170141183460469231731687303715884105728".into()),
        ("30 placeholders", |i| unit(sscanf!(i, "{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}{u8}").map(|_| ())), "1".repeat(45)),
        ("20 strings", |i| unit(sscanf!(i, "{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}{str}").map(|_| ())), "abcdefghijklmnopqrstuvwxyz".into()),
        ("20 separated strings", |i| unit(sscanf!(i, "{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str},{str}").map(|_| ())), "a,".repeat(19) + "b"),
        ("long text", |i| unit(sscanf!(i, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{}", u8)), "a".repeat(136) + "5"),
        ("catastrophic", |i| unit(sscanf!(i, "{:/(?:a+)+/}{:/(?:a|aa)+/}{:/(?:.*a){10}/}", str, String, str)), "a".repeat(30)),
        ("catastrophic, unescaped", |i| unit(sscanf_unescaped!(i, "(?:a+)+(?:a*)*{:/a*?/}$", str)), "a".repeat(30)),
        ("counted", |i| unit(sscanf!(i, "{:/[a-c]{100,300}/}{:/\\w{1,50}/}", str, str)), "abc".repeat(70)),
        ("unicode classes", |i| unit(sscanf!(i, "{:/\\p{L}*/}{:/\\P{L}+/}{:/(?i)k*/}", str, str, str)), "äöü123kK\u{212a}".into()),
        ("all floats", |i| unit(sscanf!(i, "{f32},{f64},{},{}", sscanf::FullF32, sscanf::FullF64)), "1e5,-2.,inf,.5".into()),
        ("all wide", |i| unit(sscanf!(i, "{:x},{:#o},{:b},{:r36},{}", u128, i128, u128, i128, std::num::NonZeroU128)), "f,0o7,1,z,1".into()),
        ("HexNumber", |i| unit(sscanf!(i, "{}", sscanf::HexNumber)), "0xff".into()),
        ("paths", |i| unit(sscanf!(i, "{} {}", std::path::PathBuf, u8).map(|_| ())), "/a/b 12".into()),
    ];
    parallel(rep, calls.len(), |n, rep| {
        let (name, f, s) = &calls[n];
        let mut r = Rng::new(seed(), &format!("large-{n}"));
        let got = observe(*f, s).0;
        if !matches!(got, Obs::Ok(_)) {
            rep.violation(format!("{name}|{s}"), format!("{name}\non {s:?}\n{got:?}"));
        }
        let mut last = s.clone();
        for k in 0..tiered(12, 100) {
            for h in hostile(&last, [1_000, 100_000, 1_000_000, 5_000_000][if k % 10 == 0 { 2 + (k / 10 % 2) } else { k % 2 }], &mut r) {
                seen(rep, name, *f, &h, n as u64);
                if h.len() < 300 && r.chance(1, 8) {
                    last = h;
                }
            }
            if k % 4 == 3 {
                last = s.clone();
            }
        }
    });
    rep.count("large calls");
}

#[derive(FromScanf)]
#[sscanf("{} {} {} {} {} {} {} {}")]
struct Wide(u128, i128, u128, i128, std::num::NonZeroU128, u128, std::num::NonZeroI128, u128);
#[derive(FromScanf)]
#[sscanf("{},{},{},{},{},{},{},{}")]
struct Wider(Wide, Wide, Wide, Wide, Wide, Wide, Wide, Wide);
#[derive(FromScanf)]
enum Widest {
    #[sscanf("a{}")] A(Wider),
    #[sscanf("b{}")] B(Wider),
    #[sscanf("c{}{:/\\w{300}/}")] C(u8, String),
}
/// formats with so many numbers that their regexes are large
fn wide(rep: &mut Report) {
    type F = fn(&str) -> Obs;
    let w = ["1 -2 3 -4 5 6 -7 8"; 8].join(",");
    let m = u128::MAX.to_string();
    let calls: Vec<(&str, F, String)> = vec![
        ("64 placeholders", |i| unit(sscanf!(i, "{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128},{u128}").map(|_| ())), vec![&m[..]; 64].join(",")),
        ("64 in a type", |i| unit(sscanf!(i, "{Wider}").map(|_| ())), w.clone()),
        ("64 in a type, direct", |i| unit(Wider::from_str(i).map(|_| ())), w.clone()),
        ("128 in an enum", |i| unit(sscanf!(i, "<{Widest}>").map(|_| ())), format!("<b{w}>")),
        ("128 in an enum, direct", |i| unit(Widest::from_str(i).map(|_| ())), format!("c7{}", "x".repeat(300))),
        ("a large custom regex", |i| unit(sscanf!(i, "{str:/\\w{500}/}")), "é".repeat(500)),
    ];
    parallel(rep, calls.len(), |n, rep| {
        let (name, f, s) = &calls[n];
        let got = observe(*f, s).0;
        if !matches!(got, Obs::Ok(_)) {
            rep.violation(format!("{name}|{s}"), format!("{name}\non {s:?}\n{got:?}"));
        }
        let mut r = Rng::new(seed(), &format!("wide-{n}"));
        for _ in 0..tiered(3, 40) {
            seen(rep, name, *f, &monlib::gen::mutate(s, &mut r), n as u64);
        }
        rep.count("formats with a large regex");
    });
}

fn main() {
    quiet_panics();
    watchdog("P14", 60);
    let mut rep = Report::new("P14");
    let plan = plan::plan("P14", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options { inputs: tiered(600, 6000), neighbours: tiered(2, 10), ..Default::default() });
    any_text(&mut rep, &plan, gen::SITES);
    // enormous and odd inputs
    parallel(&mut rep, gen::SITES.len(), |i, rep| {
        let site = &plan.sites[i];
        let model = plan.ctx.compile(&site.fmt);
        let mut r = Rng::new(seed(), &format!("hostile-{i}"));
        for k in 0..tiered(4, 25) {
            let mut s = model.input(&mut r);
            for _ in 0..20 {
                if s.len() < 200 && matches!(observe(gen::SITES[i], &s).0, Obs::Ok(_)) {
                    break;
                }
                s = model.input(&mut r);
            }
            let big = match k {
                0 if i % 16 == 0 => 2_000_000,
                0 => 50_000,
                _ => 3000,
            };
            for h in hostile(&s, big, &mut r) {
                if h.len() < 200 {
                    check_one(rep, i, site, &model, gen::SITES[i], &h, &Options::default());
                    rep.count("hostile inputs compared with the model");
                } else {
                    seen(rep, &site.call, gen::SITES[i], &h, i as u64);
                }
            }
        }
    });
    // numbers around all limits, of all types and radixes
    let nums = plan::plan("P04", seed(), thorough());
    let alone: Vec<usize> = (0..nums.sites.len()).filter(|i| nums.sites[*i].group == "alone").collect();
    parallel(&mut rep, alone.len(), |k, rep| {
        let i = alone[k];
        let site = &nums.sites[i];
        let model = nums.ctx.compile(&site.fmt);
        let Some(Item::Ph(Ph { ty: Ty::Int(int), opt: Opt::Radix(radix, _, _), .. })) = site.fmt.items.first() else { panic!() };
        let mut r = Rng::new(seed(), &format!("targets-{i}"));
        for d in targets(int, *radix, &mut r) {
            let (s, p) = (["", "+", "-"][r.range(0, 2)], *r.pick(&["", "", "0x", "0o", "0b", "0X"]));
            check_one(rep, i, site, &model, ints::SITES[i], &format!("{s}{p}{d}"), &Options::default());
            rep.count("numbers around the limits");
        }
        for n in [1_000, 100_000] {
            for d in ["0", "1", "9", "f", "-", "é"] {
                seen(rep, &site.call, ints::SITES[i], &d.repeat(n), i as u64);
            }
        }
    });
    large(&mut rep);
    wide(&mut rep);
    long::long_inputs(&mut rep);
    rep.finish();
}
