//! What is generated for a property: types, call sites and their source text. The build script and
//! the monitor call this with the same seed and get the same plan.
use crate::defs::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Sscanf,
    Unescaped,
    /// `<T>::from_str` of a single type
    FromStr,
}
#[derive(Clone, Debug)]
pub struct Site {
    pub kind: Kind,
    pub fmt: Fmt,
    /// the text of the call, for reports
    pub call: String,
    /// emit a `sscanf_get_regex` for it
    pub regex: bool,
    /// a group, used for counters
    pub group: &'static str,
}
pub struct Plan {
    pub ctx: Ctx,
    pub sites: Vec<Site>,
    /// use all kinds of inputs, not only `&str`
    pub kinds: bool,
}

pub struct Builder {
    pub r: Rng,
    pub plan: Plan,
    pub regex: bool,
}
impl Builder {
    pub fn new(pid: &str, seed: u64) -> Builder {
        Builder { r: Rng::new(seed, &format!("plan-{pid}")), plan: Plan { ctx: Ctx::default(), sites: vec![], kinds: pid == "P13" }, regex: false }
    }
    pub fn defs(&mut self, n: usize, cfg: &DefCfg, enum_pct: usize) {
        for _ in 0..n {
            let name = format!("D{}", self.plan.ctx.defs.len());
            let e = self.r.chance(enum_pct, 100);
            let d = gen_def(&mut self.r, cfg, &self.plan.ctx, &name, e);
            self.plan.ctx.defs.push(d);
        }
    }
    pub fn site(&mut self, kind: Kind, fmt: Fmt, style: LitStyle, group: &'static str) {
        let args = fmt.macro_args(style, &mut self.r);
        let call = match kind {
            Kind::Sscanf => {
                let p = *self.r.pick(&["sscanf!", "sscanf!", "sscanf::sscanf!", "::sscanf::sscanf!"]);
                let comma = if !fmt.args.is_empty() && self.r.chance(1, 6) { "," } else { "" };
                format!("{p}(i, {args}{comma})")
            }
            Kind::Unescaped => format!("sscanf_unescaped!(i, {args})"),
            Kind::FromStr => {
                let Some(Item::Ph(ph)) = fmt.items.first() else { unreachable!() };
                if self.r.chance(1, 2) {
                    format!("<{} as FromScanf>::from_str(i)", ph.spelled)
                } else {
                    format!("sscanf::FromScanf::from_str(i) as Result<{}, sscanf::Error>", ph.spelled)
                }
            }
        };
        let regex = self.regex && kind == Kind::Sscanf;
        self.plan.sites.push(Site { kind, fmt, call, regex, group });
    }
    pub fn fmts(&mut self, n: usize, cfg: &Cfg, style: LitStyle, group: &'static str) {
        for _ in 0..n {
            let fmt = gen_fmt(&mut self.r, cfg, &self.plan.ctx);
            let kind = if cfg.unescaped { Kind::Unescaped } else { Kind::Sscanf };
            self.site(kind, fmt, style, group);
        }
    }
    /// `{D<n>}` alone
    pub fn alone(&mut self, d: usize, kind: Kind, group: &'static str) {
        let name = self.plan.ctx.defs[d].name.clone();
        let ph = Ph { ty: Ty::Def(d), opt: Opt::None, bind: Bind::Inline, spelled: name };
        let fmt = Fmt { items: vec![Item::Ph(ph)], escaped: kind != Kind::Unescaped, args: vec![] };
        self.site(kind, fmt, LitStyle::Plain, group);
    }
    /// `{D<n>}` between literals and other placeholders
    pub fn context(&mut self, d: usize, cfg: &Cfg, group: &'static str) {
        let mut fmt = gen_fmt(&mut self.r, cfg, &self.plan.ctx);
        let name = self.plan.ctx.defs[d].name.clone();
        let at = self.r.below(fmt.items.len() + 1);
        let auto = fmt.args.is_empty() && self.r.chance(1, 2);
        let bind = if auto { Bind::Auto } else { Bind::Inline };
        if auto {
            fmt.args.push(name.clone());
        }
        fmt.items.insert(at, Item::Ph(Ph { ty: Ty::Def(d), opt: Opt::None, bind, spelled: name }));
        self.site(if cfg.unescaped { Kind::Unescaped } else { Kind::Sscanf }, fmt, LitStyle::Any, group);
    }
}

/// weights in the order of `Cfg::types`
pub const NO_TYPES: [usize; 15] = [0; 15];
pub fn only(list: &[(usize, usize)]) -> [usize; 15] {
    let mut w = NO_TYPES;
    for (i, x) in list {
        w[*i] = *x;
    }
    w
}
pub const INT: usize = 0;
pub const NONZERO: usize = 1;
pub const FLOAT: usize = 2;
pub const STR: usize = 3;
pub const COW: usize = 4;
pub const STRING: usize = 5;
pub const CHAR: usize = 6;
pub const BOOL: usize = 7;
pub const PATH: usize = 8;
pub const IP: usize = 9;
pub const TAG: usize = 10;
pub const LOG: usize = 11;
pub const MANUAL_: usize = 12;
pub const DEF: usize = 13;
pub const DEPRECATED: usize = 14;

/// all options of a radix
pub fn radix_opts() -> Vec<Opt> {
    let mut v = vec![];
    for n in 2..=36u32 {
        v.push(Opt::Radix(n, Prefix::Never, format!("r{n}")));
    }
    for (n, c) in [(16, 'x'), (8, 'o'), (2, 'b')] {
        v.push(Opt::Radix(n, Prefix::Optional, c.to_string()));
        v.push(Opt::Radix(n, Prefix::Forced, format!("#{c}")));
        v.push(Opt::Radix(n, Prefix::Forced, format!("{c}#")));
    }
    v
}

fn single(ty: Ty, opt: Opt, spelled: &str, bind: Bind) -> Fmt {
    let args = if bind == Bind::Inline { vec![] } else { vec![spelled.to_string()] };
    let ph = Ph { ty, opt, bind, spelled: spelled.to_string() };
    Fmt { items: vec![Item::Ph(ph)], escaped: true, args }
}

/// every built-in type
pub fn builtins() -> Vec<Ty> {
    let mut v: Vec<Ty> = INTS.iter().map(|n| Ty::Int(n)).collect();
    v.extend(INTS.iter().map(|n| Ty::NonZero(n)));
    v.extend([
        Ty::F32, Ty::F64, Ty::Full32, Ty::Full64, Ty::Hex, Ty::Str, Ty::Cow, Ty::String, Ty::Char, Ty::Bool, Ty::Path,
    ]);
    v
}

/// properties with a plan
pub const PLANNED: &[&str] = &[
    "P01", "P02", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P21",
];

/// Every built-in type with a regex that lets everything through to its conversion
fn any_text(b: &mut Builder) {
    let mut types = builtins();
    types.extend([Ty::Ip4, Ty::Ip]);
    for t in types {
        let s = spell(&t, &b.plan.ctx, &mut b.r, false);
        let n = crate::re::Node::Rep(Box::new(crate::re::Node::Set(vec![('\u{e000}', '\u{e000}')], true)), 0, None, b.r.chance(1, 2));
        let opt = regex_opt(n, &mut b.r);
        let bind = b.r.pick(&[Bind::Inline, Bind::Auto]).clone();
        b.site(Kind::Sscanf, single(t, opt, &s, bind), LitStyle::Any, "any text");
    }
}

pub fn plan(pid: &str, seed: u64, thorough: bool) -> Plan {
    let mut b = Builder::new(pid, seed);
    let k = |q: usize, t: usize| if thorough { t } else { q };
    let base = Cfg::default();
    let dbase = DefCfg::default();
    match pid {
        "P01" => {
            b.defs(k(30, 90), &dbase, 50);
            let mut c = base.clone();
            c.types[DEF] = 8;
            b.fmts(k(340, 1000), &c, LitStyle::Any, "mixed");
            // no separators: everything rests on the matching priorities
            let mut c = base.clone();
            c.lits = [1, 0, 0, 1, 8];
            c.ph = (2, 5);
            b.fmts(k(120, 300), &c, LitStyle::Any, "adjacent");
            let mut c = base.clone();
            c.ph = (10, 22);
            c.opts = [12, 2, 1];
            b.fmts(k(16, 60), &c, LitStyle::Any, "long");
        }
        "P02" => {
            // every ASCII char and all hostile ones, in the middle, at the edges and repeated
            let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(HOSTILE.iter().copied()).collect();
            for c in chars {
                // the special ones in both kinds of literals
                for form in 0..if c.is_ascii() { 3 } else { 6 } {
                    let l = match form % 3 {
                        0 => format!("{c}"),
                        1 => format!("a{c}b{c}"),
                        _ => format!("{c}{c}"),
                    };
                    let mut items = vec![Item::Lit(l)];
                    if form % 3 == 2 || b.r.chance(1, 4) {
                        let ph = Ph { ty: Ty::Int("u8"), opt: Opt::None, bind: Bind::Inline, spelled: "u8".into() };
                        items.insert(b.r.below(2), Item::Ph(ph));
                    }
                    let styles = [LitStyle::Raw, LitStyle::Plain];
                    let style = if c.is_ascii() { *b.r.pick(&styles) } else { styles[form / 3] };
                    b.site(Kind::Sscanf, Fmt { items, escaped: true, args: vec![] }, style, "chars");
                }
            }
            let mut c = base.clone();
            c.ph = (0, 0);
            c.lits = [2, 8, 8, 4, 0];
            b.fmts(k(150, 500), &c, LitStyle::Any, "only literals");
            let mut c = base.clone();
            c.ph = (1, 3);
            c.types = only(&[(INT, 4), (STR, 4), (BOOL, 1), (CHAR, 2), (TAG, 2)]);
            c.opts = [6, 1, 2];
            c.lits = [3, 8, 8, 4, 1];
            b.fmts(k(200, 600), &c, LitStyle::Any, "around placeholders");
            let mut d = dbase.clone();
            d.fmt = c;
            d.fields = (0, 2);
            d.unescaped = 0;
            d.autogen = 15;
            b.defs(k(40, 120), &d, 40);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, Kind::Sscanf, "in derived formats");
            }
        }
        "P04" => {
            for n in INTS {
                for o in radix_opts() {
                    let bind = b.r.pick(&[Bind::Inline, Bind::Auto, Bind::Name("0".into())]).clone();
                    b.site(Kind::Sscanf, single(Ty::Int(n), o, n, bind), LitStyle::Any, "alone");
                }
            }
            let mut c = base.clone();
            c.ph = (1, 5);
            c.types = only(&[(INT, 10), (STR, 1), (CHAR, 1)]);
            c.opts = [1, 10, 1];
            c.fancy = false;
            b.fmts(k(100, 500), &c, LitStyle::Any, "in context");
            let mut d = dbase.clone();
            d.fmt = c;
            d.fields = (1, 4);
            b.defs(k(30, 100), &d, 40);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, Kind::Sscanf, "derived");
            }
        }
        "P05" => {
            for t in builtins() {
                let s = spell(&t, &b.plan.ctx, &mut b.r, false);
                b.site(Kind::Sscanf, single(t.clone(), Opt::None, &s, Bind::Auto), LitStyle::Any, "alone");
                for _ in 0..k(2, 8) {
                    let s = spell(&t, &b.plan.ctx, &mut b.r, true);
                    b.site(Kind::Sscanf, single(t.clone(), Opt::None, &s, Bind::Inline), LitStyle::Any, "spelled");
                }
                for _ in 0..k(2, 8) {
                    let s = spell(&t, &b.plan.ctx, &mut b.r, true);
                    let mut f = single(t.clone(), Opt::None, &s, Bind::Auto);
                    let c = base.clone();
                    f.items.insert(0, Item::Lit(gen_lit(&mut b.r, &c.lits) + "<"));
                    f.items.push(Item::Lit(">".to_string() + &gen_lit(&mut b.r, &c.lits)));
                    b.site(Kind::Sscanf, f, LitStyle::Any, "in context");
                }
            }
            any_text(&mut b);
        }
        "P06" => {
            let mut c = base.clone();
            c.types = only(&[(TAG, 12), (LOG, 2), (STR, 1), (INT, 1)]);
            c.opts = [8, 0, 1];
            c.ph = (1, 5);
            c.lits = [6, 1, 1, 0, 1];
            b.fmts(k(200, 500), &c, LitStyle::Any, "few");
            c.ph = (6, 24);
            b.fmts(k(60, 200), &c, LitStyle::Any, "many");
            c.binds = [1, 8, 1];
            c.ph = (3, 16);
            b.fmts(k(60, 200), &c, LitStyle::Any, "indexed");
            let mut d = dbase.clone();
            d.fmt = c.clone();
            d.fields = (2, 12);
            d.conv = [20, 1, 1, 1, 0, 1, 0];
            d.autogen = 0;
            d.variants = (1, 3);
            b.defs(k(50, 200), &d, 25);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, Kind::Sscanf, "fields");
            }
        }
        "P07" => {
            let mut c = base.clone();
            c.opts = [2, 0, 10];
            c.ph = (1, 4);
            b.fmts(k(300, 900), &c, LitStyle::Any, "mixed");
            let mut c = c.clone();
            c.types = only(&[(STR, 6), (COW, 1), (STRING, 2), (PATH, 1)]);
            c.opts = [1, 0, 12];
            c.ph = (1, 3);
            b.fmts(k(250, 800), &c, LitStyle::Any, "strings");
            let mut d = dbase.clone();
            d.fmt = c;
            d.fields = (1, 3);
            d.borrow = 80;
            b.defs(k(40, 150), &d, 40);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, Kind::Sscanf, "derived");
            }
        }
        "P08" | "P09" | "P11" | "P12" => {
            let pct = match pid {
                "P08" => 0,
                "P09" => 100,
                _ => 50,
            };
            let n = match pid {
                "P08" | "P09" => k(150, 450),
                _ => k(90, 300),
            };
            let mut d = dbase.clone();
            d.fmt.lits = [8, 3, 2, 4, 6];
            d.fmt.types[DEF] = 3;
            b.defs(n / 2, &d, pct);
            // many conversions
            d.conv = [3, 1, 2, 3, 3, 3, 3];
            d.fields = (2, 6);
            b.defs(n / 4, &d, pct);
            // simple ones with separators, so that it mostly depends on the binding
            d.conv = [20, 1, 1, 1, 1, 1, 1];
            d.fmt.lits = [1, 0, 0, 0, 0];
            d.fields = (0, 8);
            d.autogen = 60;
            d.variants = (2, 7);
            b.defs(n / 4, &d, pct);
            let mut c = base.clone();
            c.ph = (0, 3);
            c.types[DEF] = 6;
            for i in 0..b.plan.ctx.defs.len() {
                match pid {
                    "P11" => {
                        // adjacent: the monitor compares them
                        b.alone(i, Kind::FromStr, "from_str");
                        b.alone(i, Kind::Sscanf, "sscanf");
                    }
                    "P12" => {
                        b.regex = true;
                        if i % 2 == 0 {
                            b.alone(i, Kind::Sscanf, "alone");
                        } else {
                            b.context(i, &c, "in context");
                        }
                    }
                    _ => {
                        b.alone(i, Kind::Sscanf, "alone");
                        if i % 2 == 0 {
                            b.context(i, &c, "in context");
                        } else {
                            b.alone(i, Kind::FromStr, "from_str");
                        }
                    }
                }
            }
            if pid == "P12" {
                let mut c = base.clone();
                c.types[DEF] = 3;
                b.fmts(k(250, 800), &c, LitStyle::Any, "mixed");
                c.opts = [2, 6, 6];
                b.fmts(k(60, 200), &c, LitStyle::Any, "options");
            }
        }
        "P10" => {
            let mut d = dbase.clone();
            d.borrow = 0;
            d.fmt.types = only(&[(INT, 3), (STRING, 2), (BOOL, 1), (MANUAL_, 5), (TAG, 2), (CHAR, 1)]);
            d.fields = (1, 3);
            d.variants = (1, 4);
            d.autogen = 20;
            d.fmt.lits = [8, 1, 0, 1, 1];
            b.defs(20, &d, 50);
            d.fmt.types[DEF] = 12;
            b.defs(k(40, 120), &d, 50);
            d.fmt.types[DEF] = 40;
            d.fields = (1, 2);
            b.defs(k(30, 80), &d, 50);
            let mut c = base.clone();
            c.types = d.fmt.types;
            c.types[STR] = 3;
            c.ph = (1, 4);
            c.lits = [8, 1, 1, 1, 1];
            for i in 0..b.plan.ctx.defs.len() {
                if i % 3 == 0 {
                    b.alone(i, Kind::FromStr, "from_str");
                } else {
                    b.context(i, &c, "in context");
                }
            }
            b.fmts(k(60, 200), &c, LitStyle::Any, "several");
            c.unescaped = true;
            b.fmts(k(20, 60), &c, LitStyle::Any, "unescaped");
        }
        "P13" => {
            let mut c = base.clone();
            c.types = only(&[(STR, 10), (COW, 10), (STRING, 2), (INT, 3), (TAG, 1)]);
            c.ph = (1, 6);
            b.fmts(k(200, 600), &c, LitStyle::Any, "borrowed");
            let mut d = dbase.clone();
            d.fmt = c;
            d.borrow = 100;
            b.defs(k(60, 200), &d, 40);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, if i % 2 == 0 { Kind::Sscanf } else { Kind::FromStr }, "derived");
            }
        }
        "P14" => {
            let mut d = dbase.clone();
            d.fmt.types[DEF] = 4;
            b.defs(k(50, 200), &d, 50);
            let mut c = base.clone();
            c.types[DEF] = 8;
            c.opts = [6, 4, 4];
            b.fmts(k(250, 700), &c, LitStyle::Any, "mixed");
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, if i % 2 == 0 { Kind::Sscanf } else { Kind::FromStr }, "derived");
            }
            c.unescaped = true;
            b.fmts(k(30, 100), &c, LitStyle::Any, "unescaped");
            any_text(&mut b);
        }
        "P15" => {
            let mut d = dbase.clone();
            d.fmt.types[LOG] = 4;
            b.defs(k(20, 60), &d, 50);
            let mut c = base.clone();
            c.types[DEF] = 8;
            b.fmts(k(120, 300), &c, LitStyle::Any, "mixed");
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, if i % 2 == 0 { Kind::Sscanf } else { Kind::FromStr }, "derived");
            }
            b.regex = true;
            b.fmts(k(20, 60), &c, LitStyle::Any, "with regex");
        }
        "P16" => {
            let mut c = base.clone();
            c.types = only(&[(LOG, 20), (INT, 2), (STR, 1)]);
            c.opts = [10, 1, 2];
            c.ph = (1, 8);
            c.lits = [10, 1, 0, 0, 0];
            b.fmts(k(120, 400), &c, LitStyle::Any, "log");
            let mut d = dbase.clone();
            d.fmt = c.clone();
            d.fmt.types[DEF] = 4;
            d.conv = [6, 1, 3, 3, 3, 3, 3];
            d.fields = (1, 6);
            d.autogen = 10;
            b.defs(k(90, 300), &d, 40);
            c.types[DEF] = 20;
            c.ph = (1, 3);
            for i in 0..b.plan.ctx.defs.len() {
                if i % 2 == 0 {
                    b.alone(i, if i % 4 == 0 { Kind::Sscanf } else { Kind::FromStr }, "derived");
                } else {
                    b.context(i, &c, "derived in context");
                }
            }
        }
        "P17" => {
            let mut c = base.clone();
            c.types = only(&[(LOG, 10), (INT, 10), (NONZERO, 3), (FLOAT, 1), (IP, 4), (MANUAL_, 3), (CHAR, 1), (STR, 1)]);
            c.opts = [8, 4, 4];
            c.ph = (1, 5);
            c.lits = [10, 1, 0, 1, 0];
            b.fmts(k(150, 400), &c, LitStyle::Any, "plain");
            let mut d = dbase.clone();
            d.fmt = c.clone();
            d.fmt.types[DEF] = 8;
            d.conv = [8, 1, 1, 1, 5, 1, 5];
            d.fields = (1, 4);
            d.autogen = 10;
            b.defs(k(100, 300), &d, 40);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, if i % 2 == 0 { Kind::Sscanf } else { Kind::FromStr }, "derived");
            }
        }
        "P21" => {
            let mut c = base.clone();
            c.unescaped = true;
            c.ph = (0, 4);
            b.fmts(k(350, 1000), &c, LitStyle::Any, "mixed");
            let mut d = dbase.clone();
            d.unescaped = 100;
            d.autogen = 0;
            b.defs(k(60, 200), &d, 40);
            for i in 0..b.plan.ctx.defs.len() {
                b.alone(i, if i % 3 == 0 { Kind::FromStr } else { Kind::Unescaped }, "derived");
            }
        }
        _ => {}
    }
    b.plan
}

pub const PRELUDE: &str = "
#[allow(unused_imports)] use harness::*;
#[allow(unused_imports)] use sscanf::{sscanf, sscanf_unescaped, sscanf_get_regex, FromScanf};
#[allow(unused_imports)] use std::borrow::{self, Cow};
#[allow(unused_extern_crates)] extern crate alloc;
#[allow(unused_imports)] use std::net::{IpAddr, Ipv4Addr};
#[allow(unused_imports)] use std::num::*;
#[allow(unused_imports)] use std::path::PathBuf;
#[allow(unused_imports)] use std::primitive;
";

/// kinds of inputs: statements that make one, the expression that is given to the macro, its text
pub const INPUTS: &[(&str, &str, &str)] = &[
    ("", "i", "i"),
    ("let o = String::from(i);", "o", "&o"),
    ("let o = String::from(i);", "&o", "&o"),
    ("let mut o = String::from(i); let o = &mut o;", "o", "&o"),
    ("let o = Cow::Borrowed(i);", "o", "&o"),
    ("let o: Cow<'static, str> = Cow::Owned(i.to_string());", "o", "&o"),
    ("let o: std::rc::Rc<str> = std::rc::Rc::from(i);", "o", "&o"),
    ("let o: std::sync::Arc<str> = std::sync::Arc::from(i);", "o", "&o"),
    ("let o: Box<str> = Box::from(i);", "o", "&o"),
    ("let o = std::rc::Rc::new(String::from(i));", "o", "&o"),
    ("let o = Text { text: String::from(i), reads: Default::default() };", "o", "&o"),
    ("let o = String::from(i);", "o.as_str()", "&o"),
    ("let o = format!(\"ä{i}ö\");", "&o[2..o.len() - 2]", "&o[2..o.len() - 2]"),
    ("let o = String::from(i); let p = &&o;", "&p", "&o"),
    ("let o = (5, String::from(i));", "o.1", "&o.1"),
    ("let o = vec![String::new(), String::from(i)];", "o[1]", "&o[1]"),
    ("let o: Box<str> = Box::from(i);", "*o", "&o"),
    ("let o = std::sync::Mutex::new(String::from(i)); let o = o.lock().unwrap();", "o", "&o"),
    ("let o = std::cell::RefCell::new(String::from(i)); let o = o.borrow();", "o", "&o"),
    ("let o = std::pin::Pin::new(i);", "o", "&o"),
    ("let mut o: Box<str> = Box::from(i); let o: &mut str = &mut o;", "o", "o"),
    ("let o = std::mem::ManuallyDrop::new(Box::<str>::from(i));", "o", "&o"),
    ("let o = Some(String::from(i));", "o.as_deref().unwrap_or(\"\")", "o.as_deref().unwrap()"),
    ("let o = [i];", "match o { [x] => x }", "o[0]"),
    ("let o = String::from(i).into_boxed_str().into_boxed_bytes();", "std::str::from_utf8(&o).unwrap()", "std::str::from_utf8(&o).unwrap()"),
    ("let o = String::from(i); let f = || o.as_str();", "f()", "&o"),
    ("let o: &'static str = Box::leak(Box::<str>::from(i));", "o", "o"),
    ("let o = std::panic::AssertUnwindSafe(i);", "o", "&o"),
];

/// source of everything in the plan
pub fn emit(p: &Plan) -> String {
    let mut s = String::from("// generated\n");
    s += PRELUDE;
    for d in &p.ctx.defs {
        s += &crate::defs::print_def(d);
    }
    for (n, site) in p.sites.iter().enumerate() {
        let (setup, expr, text) = INPUTS[n % INPUTS.len()];
        if p.kinds && site.kind != Kind::FromStr {
            let call = site.call.replacen("(i, ", &format!("({expr}, "), 1);
            // the input has to be the same, and still there, afterwards
            s += &format!(
                "fn site_{n}(i: &str) -> Obs {{ {setup} set_base({text}); let r = obs({call}); let s: &str = {text}; assert_eq!(s, i, \"the input was changed\"); r }}\n"
            );
        } else {
            s += &format!("fn site_{n}(i: &str) -> Obs {{ obs({}) }}\n", site.call);
        }
    }
    s += "pub static SITES: &[fn(&str) -> Obs] = &[\n";
    for n in 0..p.sites.len() {
        s += &format!("    site_{n},\n");
    }
    s += "];\n";
    s += "#[allow(dead_code)]\npub static REGEXES: &[Option<harness::WithRegex>] = &[\n";
    for (n, site) in p.sites.iter().enumerate() {
        if site.regex {
            let args = site.call.split_once("(i, ").unwrap().1.strip_suffix(')').unwrap();
            let (get, comma) = [("sscanf_get_regex", ""), ("sscanf::scanf_get_regex", ""), ("sscanf::sscanf_get_regex", ",")][n % 3];
            let comma = if args.ends_with(',') { "" } else { comma };
            s += &format!("    Some(harness::WithRegex {{ get: || {get}!({args}{comma}), feed: feed_{n} }}),\n");
        } else {
            s += "    None,\n";
        }
    }
    s += "];\n";
    // every placeholder takes its groups by itself
    for (n, site) in p.sites.iter().enumerate().filter(|(_, s)| s.regex) {
        s += &format!("fn feed_{n}<'t>(it: &mut sscanf::regex::SubCaptureMatches<'_, 't>, f: &mut harness::Feed) {{\n");
        for ph in site.fmt.phs() {
            let own = ph.opt == Opt::None && !matches!(ph.ty, Ty::Str | Ty::Cow);
            if own {
                s += &format!("    if !f.own(it.len(), <{} as FromScanf<'t>>::from_matches(it).map(|v| v.show()).map_err(|e| e.to_string())) {{ return }}\n", ph.spelled);
            } else {
                s += "    f.plain(it.len()); it.next();\n";
            }
        }
        s += "    f.end(it.len());\n}\n";
    }
    s
}
