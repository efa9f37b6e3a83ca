//! Round trips: functions that format random values and parse them with the same literal
use crate::gen::{escape_braces, string_lit, LitStyle};
use crate::rng::Rng;

/// (type in sscanf, kind of the value: see `arb` in the harness, allowed format options)
struct T {
    ty: &'static str,
    val: &'static str,
    opts: &'static [&'static str],
    /// what may not follow directly
    open: bool,
}
const INT_OPTS: &[&str] = &["", "", "", ":x", ":#x", ":o", ":#o", ":b", ":#b"];
const TYPES: &[T] = &[
    T { ty: "u8", val: "u8", opts: INT_OPTS, open: true },
    T { ty: "u16", val: "u16", opts: INT_OPTS, open: true },
    T { ty: "u32", val: "u32", opts: INT_OPTS, open: true },
    T { ty: "u64", val: "u64", opts: INT_OPTS, open: true },
    T { ty: "u128", val: "u128", opts: INT_OPTS, open: true },
    T { ty: "usize", val: "usize", opts: INT_OPTS, open: true },
    T { ty: "i8", val: "i8", opts: INT_OPTS, open: true },
    T { ty: "i16", val: "i16", opts: INT_OPTS, open: true },
    T { ty: "i32", val: "i32", opts: INT_OPTS, open: true },
    T { ty: "i64", val: "i64", opts: INT_OPTS, open: true },
    T { ty: "i128", val: "i128", opts: INT_OPTS, open: true },
    T { ty: "isize", val: "isize", opts: INT_OPTS, open: true },
    T { ty: "f32", val: "f32", opts: &[""], open: true },
    T { ty: "f64", val: "f64", opts: &[""], open: true },
    T { ty: "bool", val: "bool", opts: &[""], open: false },
    T { ty: "char", val: "char", opts: &[""], open: false },
    T { ty: "str", val: "String", opts: &[""], open: true },
    T { ty: "String", val: "String", opts: &[""], open: true },
    T { ty: "Cow<str>", val: "String", opts: &[""], open: true },
    T { ty: "NonZeroU8", val: "NonZeroU8", opts: &[""], open: true },
    T { ty: "NonZeroI32", val: "NonZeroI32", opts: &[""], open: true },
    T { ty: "NonZeroU128", val: "NonZeroU128", opts: &[""], open: true },
    T { ty: "NonZeroIsize", val: "NonZeroIsize", opts: &[""], open: true },
];
/// separators: none of their first characters can be part of a value (strings avoid them)
const SEPS: &[&str] = &[
    " ", ", ", ";", " | ", "|", "\t", " -> ", "\n", "(", ") ", "[", "] ", "\\", "/", "$", "^", "*", "?", "{", "}", "{}", "}{",
    "\"", "'", " é ", "§", "\u{301}", "\u{2028}", "\0", "\r\n", " +", " e", "; 0x", "#", "# ", "&", "@", "~", "`", "<", ">", "=", ":", ",", "_", "%",
];

struct Part {
    t: usize,
    opt: &'static str,
}
fn parts(r: &mut Rng, n: usize) -> Vec<(String, Option<Part>)> {
    let mut v = vec![];
    for i in 0..n {
        let t = r.below(TYPES.len());
        let opt = *r.pick(TYPES[t].opts);
        let sep = if i == 0 {
            if r.chance(1, 2) { r.pick(SEPS).to_string() } else { String::new() }
        } else {
            let mut s = r.pick(SEPS).to_string();
            // a closed value of fixed length in front does not need a separator
            let (pt, _): (usize, ()) = (v.last().map(|(_, p): &(String, Option<Part>)| p.as_ref().unwrap().t).unwrap(), ());
            if !TYPES[pt].open && r.chance(1, 3) {
                s = String::new();
            }
            s
        };
        v.push((sep, Some(Part { t, opt })));
    }
    v.push((if r.chance(1, 2) { r.pick(SEPS).to_string() } else { String::new() }, None));
    v
}

pub fn emit(seed: u64, thorough: bool) -> String {
    let mut r = Rng::new(seed, "plan-P03");
    let mut s = String::from("// generated\n");
    s += crate::plan::PRELUDE;
    let n = if thorough { 900 } else { 300 };
    for k in 0..n {
        let count = if r.chance(1, 12) { r.range(8, 16) } else { r.range(1, 5) };
        let p = parts(&mut r, count);
        let text: String = p
            .iter()
            .map(|(sep, p)| {
                escape_braces(sep) + &p.as_ref().map_or(String::new(), |p| format!("{{{}}}", p.opt))
            })
            .collect();
        let ps: Vec<&Part> = p.iter().filter_map(|(_, p)| p.as_ref()).collect();
        // the same value in two ways of writing the literal
        let a = string_lit(&text, LitStyle::Any, &mut r);
        let b = string_lit(&text, LitStyle::Any, &mut r);
        let arb = |p: &Part| format!("<{} as Arb>::arb(r, {})", TYPES[p.t].val, !p.opt.is_empty());
        let vals: Vec<String> = (0..ps.len()).map(|i| format!("v{i}")).collect();
        s += &format!("fn rt_{k}(r: &mut Rng) -> RtResult {{\n");
        for (v, p) in vals.iter().zip(&ps) {
            s += &format!("    let {v} = {};\n", arb(p));
        }
        s += &format!("    let s = format!({a}, {});\n", vals.join(", "));
        let (call, names) = if r.chance(1, 2) {
            let types: Vec<&str> = ps.iter().map(|p| TYPES[p.t].ty).collect();
            (format!("sscanf!(s, {b}, {})", types.join(", ")), vals.clone())
        } else {
            let t: String = p
                .iter()
                .map(|(sep, p)| {
                    escape_braces(sep)
                        + &p.as_ref().map_or(String::new(), |p| format!("{{{}{}}}", TYPES[p.t].ty, p.opt))
                })
                .collect();
            (format!("sscanf!(s, {})", string_lit(&t, LitStyle::Any, &mut r)), vals.clone())
        };
        let pat: Vec<String> = (0..names.len()).map(|i| format!("w{i}")).collect();
        let pat = if pat.len() == 1 { pat[0].clone() } else { format!("({})", pat.join(", ")) };
        let cmp: Vec<String> = (0..names.len()).map(|i| format!("v{i}.back(&w{i})")).collect();
        s += &format!(
            "    match {call} {{ Ok({pat}) => RtResult {{ text: s.clone(), ok: {}, err: None }}, Err(e) => RtResult {{ text: s.clone(), ok: false, err: Some(e.to_string()) }} }}\n}}\n",
            cmp.join(" && ")
        );
    }
    // derived types that are written with their own format
    let d = if thorough { 200 } else { 70 };
    for k in 0..d {
        let is_enum = r.chance(1, 2);
        let variants = if is_enum { r.range(1, 4) } else { 1 };
        let mut decl = String::new();
        let mut disp = String::new();
        let mut arbs = String::new();
        let mut eqs = String::new();
        for v in 0..variants {
            let count = r.range(if is_enum { 0 } else { 1 }, 4);
            let p = if count == 0 { vec![(String::from("unit "), None)] } else { parts(&mut r, count) };
            let mut f = 0;
            let mut text = if is_enum { format!("{}@", (b'A' + v as u8) as char) } else { String::new() };
            for (sep, p) in &p {
                text += &escape_braces(sep);
                if let Some(p) = p {
                    text += &format!("{{f{f}{}}}", p.opt);
                    f += 1;
                }
            }
            let ps: Vec<&Part> = p.iter().filter_map(|(_, p)| p.as_ref()).collect();
            let mut order: Vec<usize> = (0..ps.len()).collect();
            r.shuffle(&mut order);
            let fields: Vec<String> = order.iter().map(|i| format!("f{i}: {}", TYPES[ps[*i].t].val)).collect();
            let names: Vec<String> = (0..ps.len()).map(|i| format!("f{i}")).collect();
            let path = if is_enum { format!("R{k}::V{v}") } else { format!("R{k}") };
            let a = string_lit(&text, LitStyle::Plain, &mut r);
            let b = string_lit(&text, LitStyle::Any, &mut r);
            if is_enum {
                decl += &format!("    #[sscanf(format = {a})]\n    V{v} {{ {} }},\n", fields.join(", "));
            } else {
                decl += &format!("#[derive(FromScanf)]\n#[sscanf(format = {a})]\nstruct R{k} {{ {} }}\n", fields.join(", "));
            }
            disp += &format!("            {path} {{ {} }} => write!(f, {b}),\n", names.join(", "));
            let init: Vec<String> = ps
                .iter()
                .enumerate()
                .map(|(i, p)| format!("f{i}: <{} as Arb>::arb(r, {})", TYPES[p.t].val, !p.opt.is_empty()))
                .collect();
            arbs += &format!("            {v} => {path} {{ {} }},\n", init.join(", "));
            let o: Vec<String> = names.iter().map(|n| format!("{n}: o_{n}")).collect();
            let mut c: Vec<String> = names.iter().map(|n| format!("{n}.back(o_{n})")).collect();
            c.push("true".into());
            eqs += &format!(
                "            ({path} {{ {} }}, {path} {{ {} }}) => {},\n",
                names.join(", "),
                o.join(", "),
                c.join(" && ")
            );
        }
        if is_enum {
            s += &format!("#[derive(FromScanf)]\nenum R{k} {{\n{decl}}}\n");
        } else {
            s += &decl;
        }
        s += &format!(
            "impl std::fmt::Display for R{k} {{\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{\n        match self {{\n{disp}        }}\n    }}\n}}\n"
        );
        s += &format!(
            "#[allow(unreachable_patterns)]\nimpl R{k} {{\n    fn arb(r: &mut Rng) -> Self {{\n        match r.below({variants}) {{\n{arbs}            _ => unreachable!(),\n        }}\n    }}\n    fn back(&self, o: &Self) -> bool {{\n        match (self, o) {{\n{eqs}            _ => false,\n        }}\n    }}\n}}\n"
        );
        let how = match k % 3 {
            0 => format!("let s = v.to_string(); let r = sscanf!(s, \"{{R{k}}}\");"),
            1 => format!("let s = v.to_string(); let r = <R{k} as FromScanf>::from_str(&s);"),
            _ => format!("let s = format!(\"<{{}}>\", v); let r = sscanf!(s, \"<{{}}>\", R{k});"),
        };
        s += &format!(
            "fn rtd_{k}(r: &mut Rng) -> RtResult {{\n    let v = R{k}::arb(r);\n    {how}\n    match r {{ Ok(w) => RtResult {{ text: s.clone(), ok: v.back(&w), err: None }}, Err(e) => RtResult {{ text: s.clone(), ok: false, err: Some(e.to_string()) }} }}\n}}\n"
        );
    }
    s += "pub static RT: &[fn(&mut Rng) -> RtResult] = &[\n";
    for k in 0..n {
        s += &format!("    rt_{k},\n");
    }
    for k in 0..d {
        s += &format!("    rtd_{k},\n");
    }
    s += "];\n";
    s
}
