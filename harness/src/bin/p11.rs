#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
use monlib::plan::{Kind, Plan};
use sscanf::{sscanf, FromScanf, RegexRepresentation};
use std::path::PathBuf;
use std::str::FromStr;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P11.rs"));
}

/// the two ways of parsing a type, and whether the direct one has to be the conversion from text
struct Pair {
    name: &'static str,
    direct: fn(&str) -> Obs,
    single: fn(&str) -> Obs,
    /// for types with a conversion from text: what that gives
    conversion: Option<fn(&str) -> Obs>,
    inputs: &'static [&'static str],
}
macro_rules! conv {
    ($($t:ty => [$($i:expr),*]),* $(,)?) => { vec![$(Pair {
        name: stringify!($t),
        direct: |i| obs(<$t as FromScanf>::from_str(i)),
        single: |i| obs(sscanf!(i, "{}", $t)),
        conversion: Some(|i| match <$t as FromStr>::from_str(i) {
            Ok(v) => ok(&[&v.show()]),
            Err(e) => Obs::ParsingFailed(chain(&sscanf::Error::ParsingFailed(Box::new(Conv::<$t>(e))))),
        }),
        inputs: &[$($i),*],
    }),*] };
}
/// what the error of the blanket implementation has to look like
struct Conv<T: FromStr>(T::Err);
impl<T: FromStr> std::fmt::Debug for Conv<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Conv")
    }
}
impl<T: FromStr> std::fmt::Display for Conv<T> where T::Err: std::fmt::Display {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<T: FromStr> std::error::Error for Conv<T> where T::Err: std::error::Error + 'static {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}
macro_rules! pair {
    ($t:ty, $fmt:literal $(, $arg:ty)? => [$($i:expr),* $(,)?]) => { Pair {
        name: stringify!($t),
        direct: |i| obs(<$t as FromScanf>::from_str(i)),
        single: |i| obs(sscanf!(i, $fmt $(, $arg)?)),
        conversion: None,
        inputs: &[$($i),*],
    } };
}

// types whose regex contains what could go wrong when it is put between anchors
macro_rules! texts {
    ($($n:ident $re:literal $caps:literal),* $(,)?) => { $(
        #[derive(Debug)]
        struct $n(Vec<Option<String>>);
        impl RegexRepresentation for $n { const REGEX: &'static str = $re; }
        impl FromScanf<'_> for $n {
            type Err = LogErr;
            const NUM_CAPTURES: usize = $caps;
            fn from_matches(src: &mut sscanf::regex::SubCaptureMatches) -> Result<Self, LogErr> {
                let v: Vec<Option<String>> = (0..$caps).map(|_| src.next().unwrap().map(|m| m.as_str().to_string())).collect();
                log(format!(concat!(stringify!($n), "({:?})"), v));
                if v[0].as_deref().unwrap().contains('X') {
                    return Err(LogErr(stringify!($n), v[0].clone().unwrap()));
                }
                Ok($n(v))
            }
        }
        impl Show for $n { fn show(&self) -> String { format!("{:?}", self) } }
    )* };
}
texts!(
    Alt "a|ab|X" 1,
    AltCap "(a)|(b+)|X()" 4,
    Lazy "[a-zX]+?" 1,
    LazyCap "([a-zX]+?)([a-z]*)" 3,
    Flag "(?i)ax|b" 1,
    FlagCap "(?i)(ax)|(?-i)(b)" 3,
    Multi "(?m)^a$|X" 1,
    Dot "(?s).+" 1,
    Verbose "(?x) a b # c\n" 1,
    Empty "" 1,
    EmptyAlt "|a|X" 1,
    Anchored "^a+$|X" 1,
    Word r"\b[a-zX]+\b" 1,
    Named "(?P<name>a+)(?:-(?P<other>b+))?|X" 3,
    Opt "(a)?(b)?(c)?X?" 4,
    NoCaps "x+y*X?" 1,
    MultiOnly "(?m)[a-zX]+" 1,
    MultiCap "(?m)([a-z]+)X?" 2,
    MultiDot "(?ms)^a.*X?" 1,
    Crlf "(?mR)a+" 1,
    Swap "(?U)(a+)(b*)X?" 3,
    CiCap "(?i)(a+)(b)?" 3,
    AsciiWord r"(?-u)\w+(?u)X?" 1,
    VerboseOnly "(?x) a  [b] X? " 1,
    MultiEnd "(?m)a$" 1,
    TextEnd r"\Aa+\z" 1,
    SubAlt "a(?:b|cX)" 1,
);
#[derive(FromScanf, Debug)]
#[sscanf(format = "{a}{b}")]
struct Strs<'a> {
    a: &'a str,
    b: std::borrow::Cow<'a, str>,
}
impl Show for Strs<'_> {
    fn show(&self) -> String {
        format!("{}+{}", self.a.show(), self.b.show())
    }
}
#[derive(FromScanf, Debug)]
#[sscanf(format_unescaped = "(?i)x{a}(?:y|Z)*")]
struct Unesc {
    a: u8,
}
impl Show for Unesc {
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}
#[derive(FromScanf, Debug)]
#[sscanf(format_unescaped = "p|q")]
struct UnescAlt;
impl Show for UnescAlt {
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}
#[derive(FromScanf, Debug)]
#[sscanf(transparent)]
struct Transparent(Alt);
impl Show for Transparent {
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}
#[derive(FromScanf, Debug)]
#[sscanf(transparent)]
struct TransparentStr<'a>(&'a str);
impl Show for TransparentStr<'_> {
    fn show(&self) -> String {
        format!("T{}", self.0.show())
    }
}
#[derive(FromScanf, Debug)]
enum Vars<'a> {
    #[sscanf(format = "a{0}")]
    A(L0),
    #[sscanf("a{0}c{1}")]
    B(&'a str, u8),
    #[sscanf(transparent)]
    C(AltCap),
    #[sscanf("{0:/[a-z]*/}")]
    D(String),
}
impl Show for Vars<'_> {
    fn show(&self) -> String {
        match self {
            Vars::A(x) => format!("A({})", x.show()),
            Vars::B(x, y) => format!("B({},{y})", x.show()),
            Vars::C(x) => format!("C({})", x.show()),
            Vars::D(x) => format!("D({})", x.show()),
        }
    }
}
#[derive(FromScanf, Debug)]
#[sscanf(format = "<{t:/[a-z0-9]+|X{2,}/}|{u:/.*?/}>")]
struct Gen<T: FromStr + 'static, U: 'static>
where
    U: FromStr,
    T::Err: std::error::Error + 'static,
    <U as FromStr>::Err: std::error::Error + 'static,
{
    u: U,
    t: T,
}
impl<T: Show + FromStr, U: Show + FromStr> Show for Gen<T, U>
where
    T::Err: std::error::Error + 'static,
    U::Err: std::error::Error + 'static,
{
    fn show(&self) -> String {
        format!("<{}|{}>", self.t.show(), self.u.show())
    }
}
/// different types of the same name (and path) next to each other
fn same_names() -> Vec<Pair> {
    macro_rules! local {
        ($($fmt:literal ($($t:ty),*) => [$($i:expr),*]),* $(,)?) => { vec![
            $({
                #[derive(Debug, FromScanf)]
                #[sscanf($fmt)]
                struct Same($($t),*);
                impl Show for Same {
                    fn show(&self) -> String { format!("{self:?}") }
                }
                pair!(Same, "{Same}" => [$($i),*])
            },)*
            $({
                #[derive(Debug, FromScanf)]
                enum Same {
                    #[sscanf($fmt)]
                    First($($t),*),
                    #[sscanf("second")]
                    Second,
                }
                impl Show for Same {
                    fn show(&self) -> String { format!("{self:?}") }
                }
                pair!(Same, "{}", Same => [$($i,)* "second"])
            },)*
        ] };
    }
    local!(
        "{}" (u8) => ["5", "256", "a", "5-6", "x"],
        "{}-{}" (u8, u8) => ["5-6", "5", "5-256", "-"],
        "<{}>" (char) => ["<a>", "a", "<>", "5"],
        "x" () => ["x", "", "5"],
        "{:/[a-c]*/}" (String) => ["", "abc", "x", "5"],
        "{:x}" (u8) => ["ff", "5", "0x5", "a"],
    )
}
fn manual() -> Vec<Pair> {
    vec![
        pair!(Alt, "{}", Alt => ["a", "ab", "abb", "X", "ba", "aX", "\na", "a\n", ""]),
        pair!(AltCap, "{AltCap}" => ["a", "b", "bbb", "X", "ab", "", "aX", "bX"]),
        pair!(Lazy, "{}", Lazy => ["a", "abc", "aXc", "abc1", "1abc", "ab\n", ""]),
        pair!(LazyCap, "{LazyCap}" => ["a", "abc", "aXc", "abc1", "1abc", "ab\n", ""]),
        pair!(Flag, "{}", Flag => ["ax", "AX", "b", "B", "axb", "BX"]),
        pair!(FlagCap, "{FlagCap}" => ["ax", "AX", "b", "B", "axb", "BX"]),
        pair!(Multi, "{}", Multi => ["a", "a\n", "\na", "a\na", "X", "b\na\nb"]),
        pair!(Dot, "{Dot}" => ["a", "a\nb", "\n", "X", "", "é🦀\u{0}"]),
        pair!(Verbose, "{}", Verbose => ["ab", "a b", "ab # c", "ab\n"]),
        pair!(Empty, "{Empty}" => ["", "a", "\n"]),
        pair!(EmptyAlt, "{}", EmptyAlt => ["", "a", "X", "aa", "\n"]),
        pair!(Anchored, "{Anchored}" => ["a", "aaa", "X", "aX", "a\n", "\na"]),
        pair!(Word, "{}", Word => ["a", "abc", "aXb", "a b", "é"]),
        pair!(Named, "{Named}" => ["a", "aa-b", "aa-bb", "X", "aa-", "-b"]),
        pair!(Opt, "{}", Opt => ["", "a", "b", "c", "abc", "ac", "X", "abcX", "acb"]),
        pair!(MultiOnly, "{}", MultiOnly => ["a", "a\nb", "a\n", "\na", "X\n1", "a\r\nb"]),
        pair!(MultiCap, "{MultiCap}" => ["a", "aX", "a\nb", "aX\n", "\na"]),
        pair!(MultiDot, "{}", MultiDot => ["a", "a\nb", "b\na", "aX\n", "\na"]),
        pair!(Crlf, "{Crlf}" => ["a", "a\r\nb", "a\r", "\r\na", "a\n"]),
        pair!(Swap, "{}", Swap => ["a", "aab", "abbb", "abX", "bX", "ab\n"]),
        pair!(CiCap, "{CiCap}" => ["A", "aAb", "AB", "aB\n", "B"]),
        pair!(AsciiWord, "{}", AsciiWord => ["a", "a_5X", "é", "aé", "a\n"]),
        pair!(VerboseOnly, "{VerboseOnly}" => ["ab", "a b", "abX", " ab ", "ab\n"]),
        pair!(MultiEnd, "{}", MultiEnd => ["a", "a\n", "a\nb", "\na"]),
        pair!(TextEnd, "{TextEnd}" => ["a", "aa", "a\n", "\na"]),
        pair!(SubAlt, "{}", SubAlt => ["ab", "acX", "a", "abX", "b"]),
        pair!(NoCaps, "{NoCaps}" => ["x", "xy", "xyX", "y", "xX"]),
        pair!(ManualPoint, "{}", ManualPoint => ["1/2", "65535/65536", "70000/1", "1/", "/1", "1/2/3"]),
        pair!(ManualOpt, "{ManualOpt}" => ["none", "some(a)", "some(a)!", "nonesome(a)", "some()"]),
        pair!(Strs, "{}", Strs => ["ab", "abc", "a", "", "a\nb", "éß"]),
        pair!(Unesc, "{Unesc}" => ["x5", "X5yzYZ", "x256", "x5a", "5", "x5\n"]),
        pair!(UnescAlt, "{UnescAlt}" => ["p", "q", "pq", "px", "xq", "p\n"]),
        pair!(Transparent, "{Transparent}" => ["a", "ab", "X", "abX"]),
        pair!(TransparentStr, "{}", TransparentStr => ["a", "abX", "", "a\n"]),
        pair!(Vars, "{}", Vars => ["ab", "aX", "abc5", "abc", "a-c5", "a-c256", "bbb", "X", "", "zzz", "a"]),
        pair!(Gen<u8, String>, "{Gen<u8, String>}" => ["<5|a>", "<256|a>", "<5|a>>", "<5|>", "<5|a|b>"]),
        pair!(Gen<L0, L1>, "{}", Gen<L0, L1> => ["<a|a>", "<ab|bb>", "<XX|a>", "<a|X>", "<aa|a|a>"]),
        pair!(Gen<i8, f64>, "{Gen<i8, f64>}" => ["<5|1e5>", "<128|1>", "<5|>", "<5|nan>", "<a|5>"]),
    ]
}

fn main() {
    quiet_panics();
    watchdog("P11", 60);
    let mut rep = Report::new("P11");
    let plan = plan::plan("P11", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options { logs: true, chains: true, ..Options::default() });

    // the two calls of each pair next to each other
    let n = plan.sites.len() / 2;
    parallel(&mut rep, n, |k, rep| {
        let (d, s) = (&plan.sites[2 * k], &plan.sites[2 * k + 1]);
        assert!(d.kind == Kind::FromStr && s.kind == Kind::Sscanf);
        let model = plan.ctx.compile(&s.fmt);
        let mut r = Rng::new(seed(), &format!("pairs-{k}"));
        let mut last = String::new();
        for i in 0..tiered(1500, 10000) {
            let input = if i > 0 && r.chance(1, 5) { gen_mutate(&last, &mut r) } else { model.input(&mut r) };
            same(rep, &format!("{}\n{}", d.call, s.call), gen::SITES[2 * k], gen::SITES[2 * k + 1], &input, "generated types");
            last = input;
        }
    });

    use std::net::{IpAddr, Ipv4Addr};
    use std::num::*;
    let nums = conv!(
        u8 => ["5", "256"], u16 => ["65535"], u32 => ["4294967296"], u64 => ["1"], u128 => ["340282366920938463463374607431768211456"],
        usize => ["0"], i8 => ["-128", "-129"], i16 => ["-1"], i32 => ["+5"], i64 => ["9"], i128 => ["-170141183460469231731687303715884105728"],
        isize => ["00000000000000000000000000000000000000000012"],
        NonZeroU8 => ["0", "05", "5"], NonZeroI8 => ["-0"], NonZeroU16 => ["007"], NonZeroI16 => ["1"], NonZeroU32 => ["0"],
        NonZeroI32 => ["-5"], NonZeroU64 => ["1"], NonZeroI64 => ["1"], NonZeroU128 => ["1"], NonZeroI128 => ["1"],
        NonZeroUsize => ["1"], NonZeroIsize => ["1"],
        f32 => ["1e5", "nan", "-.5"], f64 => ["inf", "1e999"], bool => ["true", "false"], char => ["a", "é", "\n"],
        String => ["", "a\nb", "  a  "], PathBuf => ["", "/a\n"], sscanf::FullF32 => ["1"], sscanf::FullF64 => ["1e5"],
        sscanf::HexNumber => ["0xff", "ff", "0x", "fffffffffffffffff"],
        T0 => ["a", "A", "", " "], T5 => ["zzz5"], L0 => ["X", "aX", "", " é"], L7 => ["abc", "!"],
    );
    let mut pairs = manual();
    pairs.extend(nums);
    pairs.extend(same_names());
    parallel(&mut rep, pairs.len(), |k, rep| {
        let p = &pairs[k];
        let mut r = Rng::new(seed(), &format!("hand-{k}"));
        let mut inputs: Vec<String> = p.inputs.iter().map(|s| s.to_string()).collect();
        inputs.extend(["", " ", "\n", "0", "5", " 5", "5 ", "-1", "+1", "0x5", "1_000", "１", "a", "X", "é", "\0"].map(String::from));
        for i in p.inputs {
            inputs.extend(neighbours(i, i.len() < 12, &mut r));
            for _ in 0..tiered(300, 3000) {
                let mut s = i.to_string();
                for _ in 0..r.range(1, 5) {
                    s = gen_mutate(&s, &mut r);
                }
                inputs.push(s);
            }
        }
        for i in &inputs {
            match p.conversion {
                None => same(rep, p.name, p.direct, p.single, i, "hand-written types"),
                Some(c) => {
                    let (got, log) = observe(p.direct, i);
                    let (want, clog) = observe(c, i);
                    // the wrapper of the monitor stands for the blanket implementation's own error
                    let norm = |o: &Obs| match o {
                        Obs::ParsingFailed(s) => Obs::ParsingFailed(s.split_once(" <- ").map_or(s.as_str(), |x| x.1).to_string()),
                        o => o.clone(),
                    };
                    rep.count("direct calls compared with the conversion from text");
                    expect(rep, &format!("<{} as FromScanf>::from_str", p.name), i, &norm(&got), &norm(&want));
                    if log != clog {
                        rep.violation(format!("{}|log|{i}", p.name), format!("<{} as FromScanf>::from_str on {i:?}: {log:?} instead of {clog:?}", p.name));
                    }
                    if let Obs::ParsingFailed(s) = &got {
                        let tag = format!("FromStr({})", p.name.rsplit(':').next().unwrap().trim());
                        if !s.starts_with(&tag) {
                            rep.violation(format!("{}|tag|{i}", p.name), format!("<{} as FromScanf>::from_str on {i:?}: error {s}", p.name));
                        }
                    }
                    // whatever is accepted as a placeholder is converted in the same way
                    let (single, _) = observe(p.single, i);
                    if single != Obs::MatchFailed {
                        rep.count("placeholders compared with the conversion from text");
                        expect(rep, &format!("sscanf!(i, \"{{{}}}\")", p.name), i, &single, &got);
                    }
                }
            }
        }
    });
    rep.finish();
}
fn gen_mutate(s: &str, r: &mut Rng) -> String {
    monlib::gen::mutate(s, r)
}
fn same(rep: &mut Report, what: &str, a: fn(&str) -> Obs, b: fn(&str) -> Obs, input: &str, group: &str) {
    let (x, lx) = observe(a, input);
    let (y, ly) = observe(b, input);
    rep.eval(monlib::spec::hash_str(&format!("{what}\u{0}{input}")), !input.is_empty());
    rep.count(&format!("pairs compared: {group}: {}", match &x { Obs::Ok(_) => "value", Obs::MatchFailed => "mismatch", Obs::ParsingFailed(_) => "parsing failure", _ => "panic" }));
    if x != y || matches!(x, Obs::Panic(_)) || lx != ly {
        rep.violation(
            format!("{what}|{input}"),
            format!("{what}\non {input:?}\n  directly: {x:?} {lx:?}\n  as the only placeholder: {y:?} {ly:?}"),
        );
    }
}
