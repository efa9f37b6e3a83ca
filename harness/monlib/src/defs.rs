//! Random types that derive `FromScanf`, and their source text.
use crate::gen::*;
use crate::re::*;
use crate::rng::Rng;
use crate::spec::*;

#[derive(Clone, Debug)]
pub struct DefCfg {
    pub fmt: Cfg,
    pub fields: (usize, usize),
    pub variants: (usize, usize),
    /// percentage with many fields or variants
    pub big: usize,
    /// weights: none, default, default expr, map, filter_map, from, try_from
    pub conv: [usize; 7],
    /// probability in percent
    pub unescaped: usize,
    pub borrow: usize,
    pub transparent: usize,
    pub autogen: usize,
}
impl Default for DefCfg {
    fn default() -> Self {
        DefCfg {
            fmt: Cfg::default(),
            fields: (0, 5),
            variants: (1, 5),
            big: 4,
            conv: [10, 1, 1, 2, 2, 1, 1],
            unescaped: 15,
            borrow: 40,
            transparent: 5,
            autogen: 40,
        }
    }
}

const FIELD_NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "name", "id", "first", "last_name", "_private", "f0", "f1", "long_field_name_2",
    "src", "value", "input", "cap", "n", "expected", "remaining", "start_len", "res", "catcher", "matcher", "regex",
    "type", "fn", "match", "loop", "str", "u8", "String", "größe", "self_", "error", "f",
];
const KEYWORDS: &[&str] = &["type", "fn", "match", "loop"];
const WORDS: &[&str] = &[
    "Alpha", "Beta", "Gamma", "Delta", "Red", "Green", "Blue", "North", "Low", "High", "Kilo", "Sierra", "Value", "One",
    "Two", "Item", "Quick", "Lazy", "Dog", "Mass", "Ask", "Http", "Key", "End", "A", "B",
];

struct Life {
    names: Vec<String>,
    used: Vec<bool>,
}
impl Life {
    fn get(&mut self, r: &mut Rng) -> String {
        let i = r.below(self.names.len());
        self.used[i] = true;
        self.names[i].clone()
    }
    fn peek_used(&self, r: &mut Rng) -> Option<String> {
        let v: Vec<&String> = self.names.iter().zip(&self.used).filter(|(_, u)| **u).map(|(n, _)| n).collect();
        if v.is_empty() {
            None
        } else {
            Some(r.pick(&v).to_string())
        }
    }
}

fn field_type(r: &mut Rng, cfg: &DefCfg, ctx: &Ctx, borrow: bool) -> Ty {
    loop {
        let t = gen_ty(r, &cfg.fmt, ctx);
        match &t {
            Ty::Str | Ty::Cow if !borrow => continue,
            Ty::Def(d) if ctx.defs[*d].borrows() => continue,
            _ => return t,
        }
    }
}

pub fn ident(name: &str) -> String {
    if KEYWORDS.contains(&name) {
        format!("r#{name}")
    } else {
        name.to_string()
    }
}

/// a value for `default = ...`: (type, expression, shown)
fn default_value(r: &mut Rng, bare: bool) -> (&'static str, &'static str, &'static str) {
    if bare {
        *r.pick(&[
            ("u8", "", "u8:0"),
            ("String", "", "string:"),
            ("bool", "", "bool:false"),
            ("f64", "", "f64:0000000000000000"),
            ("T3", "", "T3:"),
            ("i128", "", "i128:0"),
            ("Mapped", "", ""),
            ("std::string::String", "", "string:"),
        ])
    } else {
        *r.pick(&[
            ("u8", "7u8", "u8:7"),
            ("u8", "u8::MAX - 1", "u8:254"),
            ("String", "String::from(\"de,f\")", "string:de,f"),
            ("bool", "!false", "bool:true"),
            ("u16", "{ let a = 3u16; a * 2 }", "u16:6"),
            ("i32", "-5", "i32:-5"),
            ("T2", "T2(\"q\".to_string())", "T2:q"),
            ("char", "'x'", "char:x"),
            ("u32", "if true { 1 } else { 2 }", "u32:1"),
            ("usize", "[1usize, 2, 3].len()", "usize:3"),
        ])
    }
}

fn gen_body(r: &mut Rng, cfg: &DefCfg, ctx: &Ctx, life: &mut Life, name: &str, in_enum: bool) -> Body {
    let borrow = !life.names.is_empty();
    let mut n = r.range(cfg.fields.0, cfg.fields.1);
    let big = if in_enum { cfg.big as f64 / 300.0 } else { cfg.big as f64 / 100.0 };
    if r.chance((big * 10000.0) as usize, 10000) {
        n = r.range(9, 26);
    }
    let transparent = r.chance(cfg.transparent, 100);
    if transparent {
        n = 1;
    }
    let shape = match r.below(5) {
        _ if n == 0 => *r.pick(&[Shape::Unit, Shape::Unit, Shape::Named, Shape::Tuple]),
        0 | 1 | 2 => Shape::Named,
        _ => Shape::Tuple,
    };
    let mut names: Vec<&str> = FIELD_NAMES.to_vec();
    r.shuffle(&mut names);
    let mut fields = vec![];
    let mut tys = vec![];
    for i in 0..n {
        let fname = if shape == Shape::Named { names[i].to_string() } else { i.to_string() };
        let mut w = cfg.conv;
        if transparent {
            w[1] = 0;
            w[2] = 0;
        }
        let which = r.weighted(&w);
        let mut f = Field {
            name: fname,
            ph: None,
            conv: Conv::None,
            decl_ty: String::new(),
            default_shown: String::new(),
            attr: String::new(),
        };
        let mut ty = None;
        if which == 1 || which == 2 {
            let (t, e, s) = default_value(r, which == 1);
            f.decl_ty = t.to_string();
            f.default_shown = s.to_string();
            if which == 1 {
                f.conv = Conv::Default;
                f.attr = "default".into();
            } else {
                f.conv = Conv::DefaultExpr(e.to_string());
                f.attr = format!("default = logged_default({e})");
            }
        } else {
            let t = field_type(r, cfg, ctx, borrow || which >= 3);
            let opt = gen_opt(r, &cfg.fmt, &t);
            let plain = !matches!(opt, Opt::None);
            let conv = match which {
                0 => Conv::None,
                3 => Conv::Map,
                4 => Conv::FilterMap,
                5 => Conv::From,
                _ => Conv::TryFrom,
            };
            let src = match &t {
                Ty::Str if conv == Conv::None => {
                    let lt = life.get(r);
                    let s = r.pick(&["str", "str", "std::primitive::str", "::core::primitive::str", "primitive::str"]).to_string();
                    format!("&'{lt} {s}")
                }
                Ty::Cow if conv == Conv::None => {
                    let lt = life.get(r);
                    match r.below(5) {
                        2 => format!("alloc::borrow::Cow<'{lt}, core::primitive::str>"),
                        0 => format!("std::borrow::Cow<'{lt}, str>"),
                        1 => format!("borrow::Cow<'{lt}, ::std::primitive::str>"),
                        _ => format!("Cow<'{lt}, str>"),
                    }
                }
                Ty::Str => match life.peek_used(r) {
                    Some(lt) if r.chance(1, 2) && matches!(conv, Conv::Map | Conv::FilterMap) => format!("&'{lt} str"),
                    _ => "&str".into(),
                },
                Ty::Cow => match life.peek_used(r) {
                    Some(lt) if r.chance(1, 2) => format!("Cow<'{lt}, str>"),
                    _ => "Cow<str>".into(),
                },
                t => spell(t, ctx, r, cfg.fmt.fancy && !plain),
            };
            let closure = |f: &str, ret: &str, r: &mut Rng| {
                let x = *r.pick(&["x", "s", "src", "value"]);
                match r.below(4) {
                    0 => format!("|{x}: {src}| {{ {f}({x}) }}"),
                    1 => format!("|{x}: {src}| -> {ret} {{ let y = {x}; {f}(y) }}"),
                    _ => format!("|{x}: {src}| {f}({x})"),
                }
            };
            match conv {
                Conv::None => f.decl_ty = src.clone(),
                Conv::Map => {
                    f.decl_ty = "Mapped".into();
                    f.attr = format!("map = {}", closure("mapped", "Mapped", r));
                }
                Conv::FilterMap => {
                    f.decl_ty = "Mapped".into();
                    f.attr = format!("filter_map = {}", closure("fmapped", "Option<Mapped>", r));
                }
                Conv::From => {
                    f.decl_ty = "Mapped".into();
                    f.attr = format!("from = {src}");
                }
                _ => {
                    f.decl_ty = "TryMapped".into();
                    f.attr = format!("try_from = {src}");
                }
            }
            f.conv = conv;
            ty = Some((t, if transparent { Opt::None } else { opt }, src));
            if transparent && matches!(ty, Some((Ty::Ip | Ty::Ip4, _, _))) {
                // no regex of its own
                f.conv = Conv::None;
                f.attr.clear();
                f.decl_ty = "u8".into();
                ty = Some((Ty::Int("u8"), Opt::None, "u8".into()));
            }
        }
        fields.push(f);
        tys.push(ty);
    }
    // which fields are bound by name
    let all_auto = r.chance(1, 3);
    let mut slots: Vec<Option<usize>> = vec![];
    let mut autos = vec![];
    for (i, t) in tys.iter().enumerate() {
        if t.is_none() {
            continue;
        }
        if !all_auto && r.chance(2, 3) {
            slots.push(Some(i));
        } else {
            slots.push(None);
            autos.push(i);
        }
    }
    r.shuffle(&mut slots);
    let mut autos = autos.into_iter();
    let unescaped = !transparent && r.chance(cfg.unescaped, 100);
    let mut items = vec![];
    let push_lit = |items: &mut Vec<Item>, r: &mut Rng| {
        if transparent {
            return;
        }
        if unescaped && r.chance(1, 2) {
            let d = r.range(0, 2) as u32;
            let node = gen_re(r, d);
            let mut text = node.print(r);
            if matches!(node, Node::Alt(_)) {
                text = format!("(?:{text})");
            }
            items.push(Item::Re(node, text));
            return;
        }
        let s = gen_lit(r, &cfg.fmt.lits);
        if !s.is_empty() {
            items.push(Item::Lit(s));
        }
    };
    push_lit(&mut items, r);
    for (k, slot) in slots.into_iter().enumerate() {
        let (i, bind) = match slot {
            Some(i) => {
                let by_index = shape == Shape::Tuple || r.chance(1, 5);
                let name = if by_index {
                    i.to_string()
                } else if KEYWORDS.contains(&&fields[i].name[..]) && r.chance(1, 2) {
                    ident(&fields[i].name)
                } else {
                    fields[i].name.clone()
                };
                (i, Bind::Name(name))
            }
            None => (autos.next().unwrap(), Bind::Auto),
        };
        let (t, o, src) = tys[i].clone().unwrap();
        fields[i].ph = Some(k);
        let bind = if transparent { Bind::Auto } else { bind };
        items.push(Item::Ph(Ph { ty: t, opt: o, bind, spelled: src }));
        push_lit(&mut items, r);
    }
    if in_enum && items.is_empty() && r.chance(1, 2) {
        items.push(Item::Lit(name.to_lowercase()));
    }
    let fmt = Fmt { items, escaped: !unescaped, args: vec![] };
    let text = fmt.text();
    let attr = if transparent {
        "transparent".to_string()
    } else if unescaped {
        if r.chance(1, 4) && !text.chars().any(|c| c == '\r') {
            raw_lit(&text)
        } else {
            format!("format_unescaped = {}", string_lit(&text, LitStyle::Any, r))
        }
    } else if r.chance(1, 4) {
        string_lit(&text, LitStyle::Plain, r)
    } else {
        format!("format = {}", string_lit(&text, LitStyle::Any, r))
    };
    Body { name: name.to_string(), shape, fmt: Some(fmt), fields, attr }
}

pub const CASES: [&str; 12] = [
    "CaseSensitive", "CaseInsensitive", "lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase",
    "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE",
];
/// the item for a variant of these words
pub fn autogen_item(case: &str, words: &[&str]) -> Item {
    let low: Vec<String> = words.iter().map(|w| w.to_lowercase()).collect();
    let up: Vec<String> = words.iter().map(|w| w.to_uppercase()).collect();
    let pascal = words.concat();
    let s = match case {
        "CaseSensitive" | "PascalCase" => pascal,
        "CaseInsensitive" => return Item::Re(ci_unicode(&pascal), String::new()),
        "lower case" => low.join(" "),
        "UPPER CASE" => up.join(" "),
        "lowercase" => low.concat(),
        "UPPERCASE" => up.concat(),
        "camelCase" => format!("{}{}", low[0], words[1..].concat()),
        "snake_case" => low.join("_"),
        "SCREAMING_SNAKE_CASE" => up.join("_"),
        "kebab-case" => low.join("-"),
        "SCREAMING-KEBAB-CASE" => up.join("-"),
        _ => unreachable!(),
    };
    Item::Lit(s)
}

pub fn gen_def(r: &mut Rng, cfg: &DefCfg, ctx: &Ctx, name: &str, is_enum: bool) -> Def {
    let mut life = Life { names: vec![], used: vec![] };
    if r.chance(cfg.borrow, 100) {
        let mut l = vec!["a", "b", "t", "input"];
        r.shuffle(&mut l);
        l.truncate(r.range(1, 2));
        life.used = vec![false; l.len()];
        life.names = l.into_iter().map(String::from).collect();
    }
    let mut bodies = vec![];
    let mut enum_attr = String::new();
    if !is_enum {
        bodies.push(gen_body(r, cfg, ctx, &mut life, name, false));
    } else {
        let mut n = r.range(cfg.variants.0, cfg.variants.1);
        let mut small = cfg.clone();
        if r.chance(cfg.big, 100) {
            n = r.range(9, 40);
            small.fields.1 = small.fields.1.min(small.fields.0.max(2));
        }
        let cfg = &small;
        let autogen = r.chance(cfg.autogen, 100);
        let case = *r.pick(&CASES);
        if autogen {
            let k = *r.pick(&["autogen", "autogenerate"]);
            enum_attr = if case == "CaseSensitive" && r.chance(1, 2) { k.into() } else { format!("{k} = \"{case}\"") };
        }
        let mut seen = vec![];
        while bodies.len() < n {
            let words: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(WORDS)).collect();
            // single letters are only unambiguous on their own
            if words.len() > 1 && words.iter().any(|w| w.len() == 1) {
                continue;
            }
            let vname = words.concat();
            if seen.contains(&vname) {
                continue;
            }
            seen.push(vname.clone());
            if autogen && r.chance(2, 3) {
                let shape = *r.pick(&[Shape::Unit, Shape::Unit, Shape::Unit, Shape::Tuple, Shape::Named]);
                let fmt = Fmt { items: vec![autogen_item(case, &words)], escaped: true, args: vec![] };
                let skip = r.chance(1, 6);
                bodies.push(Body {
                    name: vname,
                    shape,
                    fmt: if skip { None } else { Some(fmt) },
                    fields: vec![],
                    attr: if skip { "skip".into() } else { String::new() },
                });
                continue;
            }
            let mut b = gen_body(r, cfg, ctx, &mut life, &vname, true);
            if r.chance(1, 8) {
                // not constructible
                b.fmt = None;
                b.attr = if autogen || r.chance(1, 3) { "skip".into() } else { String::new() };
                for f in &mut b.fields {
                    f.ph = None;
                    f.conv = Conv::None;
                    f.attr.clear();
                }
            }
            bodies.push(b);
        }
        if bodies.iter().all(|b| b.fmt.is_none()) {
            let fmt = Fmt { items: vec![Item::Lit("only".into())], escaped: true, args: vec![] };
            bodies.push(Body {
                name: "OnlyOne".into(),
                shape: Shape::Unit,
                fmt: Some(fmt),
                fields: vec![],
                attr: "format = \"only\"".into(),
            });
        }
    }
    let lifetimes = life.names.iter().zip(&life.used).filter(|(_, u)| **u).map(|(n, _)| n.clone()).collect();
    Def { name: name.to_string(), is_enum, enum_attr, bodies, lifetimes }
}

/// source of the definition and its `Show` implementation
pub fn print_def(d: &Def) -> String {
    let mut s = String::new();
    let generics = if d.lifetimes.is_empty() {
        String::new()
    } else {
        format!("<{}>", d.lifetimes.iter().map(|l| format!("'{l}")).collect::<Vec<_>>().join(", "))
    };
    s += "#[derive(sscanf::FromScanf)]\n#[allow(dead_code)]\n";
    let fields = |b: &Body, vis: &str| {
        let mut s = String::new();
        for f in &b.fields {
            if !f.attr.is_empty() {
                s += &format!("    #[sscanf({})]\n", f.attr);
            }
            match b.shape {
                Shape::Named => s += &format!("    {vis}{}: {},\n", ident(&f.name), f.decl_ty),
                _ => s += &format!("    {vis}{},\n", f.decl_ty),
            }
        }
        match b.shape {
            Shape::Named => format!(" {{\n{s}}}"),
            Shape::Tuple => format!("(\n{s})"),
            Shape::Unit => String::new(),
        }
    };
    let shows = |b: &Body| {
        let mut s = String::new();
        for (i, f) in b.fields.iter().enumerate() {
            s += &format!(" s += \"{}=\"; s += &v{i}.show(); s += \";\";", f.name);
        }
        s
    };
    let pattern = |b: &Body| match b.shape {
        Shape::Unit => String::new(),
        Shape::Tuple => {
            format!("({})", (0..b.fields.len()).map(|i| format!("v{i}")).collect::<Vec<_>>().join(", "))
        }
        Shape::Named => format!(
            " {{ {} }}",
            b.fields.iter().enumerate().map(|(i, f)| format!("{}: v{i}", ident(&f.name))).collect::<Vec<_>>().join(", ")
        ),
    };
    let mut show = String::new();
    if d.is_enum {
        if !d.enum_attr.is_empty() {
            s += &format!("#[sscanf({})]\n", d.enum_attr);
        }
        s += &format!("pub enum {}{generics} {{\n", d.name);
        for b in &d.bodies {
            if !b.attr.is_empty() {
                s += &format!("    #[sscanf({})]\n", b.attr);
            }
            s += &format!("    {}{},\n", b.name, fields(b, ""));
            show += &format!(
                "            {}::{}{} => {{ s += \"{}::{}{{\";{} }}\n",
                d.name,
                b.name,
                pattern(b),
                d.name,
                b.name,
                shows(b)
            );
        }
        s += "}\n";
    } else {
        let b = &d.bodies[0];
        s += &format!("#[sscanf({})]\n", b.attr);
        let f = fields(b, "pub ");
        s += &format!("pub struct {}{generics}{f}{}\n", d.name, if b.shape == Shape::Named { "" } else { ";" });
        show += &format!("            {}{} => {{ s += \"{}{{\";{} }}\n", d.name, pattern(b), d.name, shows(b));
    }
    let anon = if d.lifetimes.is_empty() {
        String::new()
    } else {
        format!("<{}>", d.lifetimes.iter().map(|_| "'_").collect::<Vec<_>>().join(", "))
    };
    s += &format!(
        "impl Show for {}{anon} {{\n    fn show(&self) -> String {{\n        let mut s = String::new();\n        match self {{\n{show}        }}\n        s += \"}}\";\n        s\n    }}\n}}\n",
        d.name
    );
    if d.lifetimes.is_empty() {
        s += &format!("harness::src_types!({});\n", d.name);
    }
    s
}
