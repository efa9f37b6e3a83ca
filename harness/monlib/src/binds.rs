//! Every way to bind a few placeholders to types or fields.
use crate::rng::Rng;

/// how one placeholder says what it is for
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    Auto,
    Index(usize),
    Inline,
}
fn sequences(len: usize, args: usize) -> Vec<Vec<B>> {
    let mut all: Vec<Vec<B>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &all {
            for b in [B::Auto, B::Inline].into_iter().chain((0..args).map(B::Index)) {
                let mut s = s.clone();
                s.push(b);
                next.push(s);
            }
        }
        all = next;
    }
    // every argument is used, and there are enough of them
    all.retain(|s| {
        let autos = s.iter().filter(|b| **b == B::Auto).count();
        autos <= args && (autos..args).all(|i| s.contains(&B::Index(i)))
    });
    all
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            v.push(q);
        }
    }
    v
}
const NAMES: [&str; 8] = ["a", "zz", "type", "b", "u8", "x1", "A_", "self_"];

pub fn emit(seed: u64, thorough: bool) -> String {
    let mut r = Rng::new(seed, "bindings");
    let mut defs = String::new();
    let mut calls = String::from("fn bindings() -> Vec<Binding> { vec![\n");
    for args in 0..=3usize {
        for len in args.max(1)..=(if args == 0 { 3 } else { 4 }) {
            for s in sequences(len, args) {
                if len == 4 && args > 1 && !thorough && !r.chance(1, 4) {
                    continue;
                }
                // the type of each argument is another one
                let mut types: Vec<usize> = (0..10).collect();
                r.shuffle(&mut types);
                let mut auto = 0;
                let mut slots = vec![];
                let mut text = vec![];
                for (k, b) in s.iter().enumerate() {
                    let (t, n) = match b {
                        B::Auto => {
                            auto += 1;
                            (types[auto - 1], String::new())
                        }
                        B::Index(i) => (types[*i], i.to_string()),
                        B::Inline => (types[5 + k], format!("T{}", types[5 + k])),
                    };
                    slots.push(t);
                    text.push(format!("{{{n}}}"));
                }
                let list: String = types[..args].iter().map(|t| format!(", T{t}")).collect();
                calls += &format!("Binding {{ hand: hand!(|i| sscanf!(i, \"{}\"{list})), slots: &{slots:?}, fields: None }},\n", text.join(","));
            }
        }
    }
    let mut n = 0;
    for placed in 1..=4usize {
        for p in permutations(placed) {
            for autos in 0..1u32 << placed {
                // automatic ones take the unnamed fields in their order
                let a: Vec<usize> = (0..placed).filter(|k| autos >> k & 1 == 1).map(|k| p[k]).collect();
                if a.windows(2).any(|w| w[0] > w[1]) || placed == 4 && !thorough && !r.chance(1, 3) {
                    continue;
                }
                // fields without a placeholder in between
                let total = placed + r.below(3);
                let mut places: Vec<usize> = (0..total).collect();
                r.shuffle(&mut places);
                places.truncate(placed);
                places.sort();
                let tuple = r.chance(1, 2);
                let mut names = NAMES;
                r.shuffle(&mut names);
                let mut types: Vec<usize> = (0..10).collect();
                r.shuffle(&mut types);
                let fmt: Vec<String> = (0..placed)
                    .map(|k| {
                        let field = places[p[k]];
                        if autos >> k & 1 == 1 {
                            "{}".to_string()
                        } else if tuple || r.chance(1, 4) {
                            format!("{{{field}}}")
                        } else {
                            format!("{{{}}}", names[field])
                        }
                    })
                    .collect();
                let slots: Vec<usize> = (0..placed).map(|k| types[places[p[k]]]).collect();
                let fields: Vec<Option<usize>> = (0..total).map(|f| places.iter().position(|x| *x == f).map(|at| p.iter().position(|x| *x == at).unwrap())).collect();
                let decl: Vec<String> = (0..total)
                    .map(|f| {
                        let attr = if fields[f].is_none() { "#[sscanf(default = Default::default())] " } else { "" };
                        let name = if names[f] == "type" { "r#type" } else { names[f] };
                        if tuple { format!("{attr}T{}", types[f]) } else { format!("{attr}{name}: T{}", types[f]) }
                    })
                    .collect();
                let show: String = (0..total)
                    .map(|f| {
                        let name = if names[f] == "type" { "r#type" } else { names[f] };
                        format!("{}, ", if tuple { format!("s{f}") } else { format!("{name}: s{f}") })
                    })
                    .collect();
                let body = if tuple { format!("({})", decl.join(", ")) } else { format!("{{ {} }}", decl.join(", ")) };
                let pat = if tuple { format!("({show})") } else { format!("{{ {show} }}") };
                let shown = (0..total).map(|f| format!("s{f}.show()")).collect::<Vec<_>>().join(", ");
                let fmt = fmt.join(",");
                if r.chance(1, 3) {
                    defs += &format!(
                        "#[derive(sscanf::FromScanf)] enum X{n} {{ #[sscanf(\"never {{}}\")] N(u8), #[sscanf(\"{fmt}\")] V{body} }}\n\
                         impl Show for X{n} {{ fn show(&self) -> String {{ match self {{ X{n}::N(_) => \"N\".into(), X{n}::V{pat} => vec![{shown}].join(\";\") }} }} }}\n"
                    );
                } else {
                    defs += &format!(
                        "#[derive(sscanf::FromScanf)] #[sscanf(\"{fmt}\")] struct X{n}{body}{}\n\
                         impl Show for X{n} {{ fn show(&self) -> String {{ let X{n}{pat} = self; vec![{shown}].join(\";\") }} }}\n",
                        if tuple { ";" } else { "" }
                    );
                }
                calls += &format!("Binding {{ hand: hand!(|i| sscanf!(i, \"{{X{n}}}\")), slots: &{slots:?}, fields: Some((\"{fmt}\", &{fields:?}, &{:?})) }},\n", &types[..total]);
                n += 1;
            }
        }
    }
    // many placeholders, indices of two digits
    for len in [9usize, 10, 11, 12, 13, 16, 17, 21, 26, 33, 40, 52, 65, 66] {
        for form in 0..if thorough { 12 } else { 5 } {
            let args = match form {
                0 => len,
                1 => 0,
                _ => r.range(2, len),
            };
            let types: Vec<usize> = (0..args).map(|_| r.below(10)).collect();
            let mut order: Vec<B> = (0..args).map(B::Index).collect();
            if form == 0 || form == 2 {
                order = vec![B::Auto; args];
            } else if form == 3 {
                // the first ones automatically
                let n = r.below(args);
                order.iter_mut().take(n).for_each(|b| *b = B::Auto);
            }
            while order.len() < len {
                order.push(if args == 0 || r.chance(1, 3) { B::Inline } else { B::Index(r.below(args)) });
            }
            if form != 0 {
                r.shuffle(&mut order);
            }
            let mut auto = 0;
            let mut slots = vec![];
            let mut text = vec![];
            for b in &order {
                let (t, n) = match b {
                    B::Auto => {
                        auto += 1;
                        (types[auto - 1], String::new())
                    }
                    B::Index(i) => (types[*i], i.to_string()),
                    B::Inline => {
                        let t = r.below(10);
                        (t, format!("T{t}"))
                    }
                };
                slots.push(t);
                text.push(format!("{{{n}}}"));
            }
            let list: String = types.iter().map(|t| format!(", T{t}")).collect();
            calls += &format!("Binding {{ hand: hand!(|i| sscanf!(i, \"{}\"{list})), slots: &{slots:?}, fields: None }},\n", text.join(","));
        }
        for form in 0..if thorough { 12 } else { 4 } {
            // fields without a placeholder in between
            let total = len + if form == 0 { 0 } else { r.below(4) };
            let mut places: Vec<usize> = (0..total).collect();
            r.shuffle(&mut places);
            places.truncate(len);
            places.sort();
            let types: Vec<usize> = (0..total).map(|_| r.below(10)).collect();
            let tuple = r.chance(1, 2);
            // how many are automatic: none, some, all
            let mut autos: Vec<usize> = places.iter().copied().filter(|_| form == 0 || form == 1 && r.chance(1, 2)).collect();
            let mut named: Vec<usize> = places.iter().copied().filter(|p| !autos.contains(p)).collect();
            r.shuffle(&mut named);
            let mut of_ph = vec![];
            let mut text = vec![];
            while !autos.is_empty() || !named.is_empty() {
                if named.is_empty() || !autos.is_empty() && r.chance(1, 2) {
                    of_ph.push(autos.remove(0));
                    text.push("{}".to_string());
                } else {
                    let f = named.pop().unwrap();
                    text.push(if tuple || r.chance(1, 3) { format!("{{{f}}}") } else { format!("{{f{f}}}") });
                    of_ph.push(f);
                }
            }
            let slots: Vec<usize> = of_ph.iter().map(|f| types[*f]).collect();
            let fields: Vec<Option<usize>> = (0..total).map(|f| of_ph.iter().position(|x| *x == f)).collect();
            let decl: Vec<String> = (0..total)
                .map(|f| {
                    let attr = if fields[f].is_none() { "#[sscanf(default)] " } else { "" };
                    if tuple { format!("{attr}T{}", types[f]) } else { format!("{attr}f{f}: T{}", types[f]) }
                })
                .collect();
            let show: String = (0..total).map(|f| if tuple { format!("s{f}, ") } else { format!("f{f}: s{f}, ") }).collect();
            let shown = (0..total).map(|f| format!("s{f}.show()")).collect::<Vec<_>>().join(", ");
            let (body, pat) = if tuple {
                (format!("({})", decl.join(", ")), format!("({show})"))
            } else {
                (format!("{{ {} }}", decl.join(", ")), format!("{{ {show} }}"))
            };
            let fmt = text.join(",");
            if r.chance(1, 3) {
                // behind a variant with just as many
                let other: String = (0..len).map(|k| if k == 0 { "{}" } else { " {}" }).collect();
                let us = vec!["u8"; len].join(", ");
                defs += &format!(
                    "#[derive(sscanf::FromScanf)] enum X{n} {{ #[sscanf(\"never {other}\")] N({us}), #[sscanf(\"{fmt}\")] V{body}, #[sscanf(\"nor {other}\")] M({us}) }}\n\
                     impl Show for X{n} {{ fn show(&self) -> String {{ match self {{ X{n}::V{pat} => vec![{shown}].join(\";\"), _ => \"N\".into() }} }} }}\n"
                );
            } else {
                defs += &format!(
                    "#[derive(sscanf::FromScanf)] #[sscanf(\"{fmt}\")] struct X{n}{body}{}\n\
                     impl Show for X{n} {{ fn show(&self) -> String {{ let X{n}{pat} = self; vec![{shown}].join(\";\") }} }}\n",
                    if tuple { ";" } else { "" }
                );
            }
            calls += &format!("Binding {{ hand: hand!(|i| sscanf!(i, \"{{X{n}}}\")), slots: &{slots:?}, fields: Some((\"{fmt}\", &{fields:?}, &{types:?})) }},\n");
            n += 1;
        }
    }
    calls += "]}\n";
    defs + &calls
}
