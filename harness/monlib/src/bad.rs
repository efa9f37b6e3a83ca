//! Manual implementations whose declared, taken and real numbers of groups differ.

/// (declared, taken, groups in the regex), each including the whole match; strict: unwraps what it takes
pub fn all() -> Vec<(usize, usize, usize, bool)> {
    let mut v = vec![];
    for d in 1..=4 {
        for t in 1..=4 {
            for g in 1..=4 {
                if [d, t, g].iter().filter(|x| **x == 4).count() % 3 != 0 && (d * 7 + t * 3 + g) % 3 != 0 {
                    continue;
                }
                v.push((d, t, g, true));
                if t > g {
                    v.push((d, t, g, false));
                }
            }
        }
    }
    v
}
pub const REGEX: [&str; 4] = [r"[a-z]+:", r"([a-z]+):", r"([a-z])([a-z]*):", r"(([a-z])[a-z]*)(:)"];

pub fn emit() -> String {
    let mut s = String::new();
    let mut list = String::from("fn contracts() -> Vec<Contract> { vec![\n");
    for (n, (d, t, g, strict)) in all().into_iter().enumerate() {
        let b = format!("B{n}");
        s += &format!(
            "pub struct {b}(String);\nimpl RegexRepresentation for {b} {{ const REGEX: &'static str = r\"{}\"; }}\n\
             impl FromScanf<'_> for {b} {{\n    type Err = std::convert::Infallible;\n    const NUM_CAPTURES: usize = {d};\n    \
             fn from_matches(src: &mut sscanf::regex::SubCaptureMatches) -> Result<Self, Self::Err> {{ Ok({b}(take::<{strict}>(src, {t}))) }}\n}}\n\
             impl Show for {b} {{ fn show(&self) -> String {{ self.0.clone() }} }}\n",
            REGEX[g - 1]
        );
        s += &format!(
            "#[derive(FromScanf)] #[sscanf(transparent)] pub struct WA{n}({b});\n\
             #[derive(FromScanf)] #[sscanf(\"{{}}{{}}{{}}\")] pub struct WB{n}(u8, {b}, u8);\n\
             #[derive(FromScanf)] pub enum WC{n} {{ #[sscanf(\"x{{}}{{}}\")] X({b}, u8), #[sscanf(\"{{}}y\")] Y(u16), #[sscanf(\"{{}}z{{}}\")] Z(u16, {b}) }}\n\
             #[derive(FromScanf)] #[sscanf(\"{{b}}~{{a}}\")] pub struct WD{n} {{ a: WC{n}, b: WB{n} }}\n"
        );
        s += &format!(
            "impl Show for WA{n} {{ fn show(&self) -> String {{ self.0.show() }} }}\n\
             impl Show for WB{n} {{ fn show(&self) -> String {{ format!(\"{{}}|{{}}|{{}}\", self.0, self.1.show(), self.2) }} }}\n\
             impl Show for WC{n} {{ fn show(&self) -> String {{ match self {{ Self::X(b, n) => format!(\"X|{{}}|{{}}\", b.show(), n), Self::Y(n) => format!(\"Y|{{}}\", n), Self::Z(n, b) => format!(\"Z|{{}}|{{}}\", n, b.show()) }} }} }}\n\
             impl Show for WD{n} {{ fn show(&self) -> String {{ format!(\"{{}}~{{}}\", self.b.show(), self.a.show()) }} }}\n"
        );
        list += &format!("Contract {{ d: {d}, t: {t}, g: {g}, strict: {strict}, calls: vec![\n");
        for (call, input, want) in [
            ("sscanf!(i, \"{Bn}\")", "@", "@"),
            ("sscanf!(i, \"{Bn}{u8}\")", "@7", "@ u8:7"),
            ("sscanf!(i, \"{u8}{Bn}\")", "7@", "u8:7 @"),
            ("sscanf!(i, \"{u8}{}{char}{0}\", Bn)", "7@x@", "u8:7 @ char:x @"),
            ("sscanf!(i, \"{WAn}\")", "@", "@"),
            ("sscanf!(i, \"{WAn}{str}\")", "@@", "@ str§4:abc:"),
            ("sscanf!(i, \"{WBn}{bool}\")", "1@2true", "1|@|2 bool:true"),
            ("sscanf!(i, \"{WCn}{u8}\")", "x@8,9", ""),
            ("sscanf!(i, \"{WCn},{u8}\")", "x@8,9", "X|@|8 u8:9"),
            ("sscanf!(i, \"{WCn},{u8}\")", "5z@,9", "Z|5|@ u8:9"),
            ("sscanf!(i, \"{WDn}{char}\")", "1@2~3z@c", "1|@|2~Z|3|@ char:c"),
            ("sscanf!(i, \"{WDn}{char}\")", "1@2~x@8c", "1|@|2~X|@|8 char:c"),
            ("sscanf_unescaped!(i, \"(?:{WAn}|-){{1}}{char}\")", "@c", "@ char:c"),
            ("<WBn as FromScanf>::from_str(i)", "1@2", "1|@|2"),
            ("<WCn as FromScanf>::from_str(i)", "x@8", "X|@|8"),
            ("<WDn as FromScanf>::from_str(i)", "1@2~x@8", "1|@|2~X|@|8"),
        ] {
            if want.is_empty() {
                continue;
            }
            let call = ["Bn", "WAn", "WBn", "WCn", "WDn"].iter().fold(call.to_string(), |c, name| {
                let to = name.replace('n', &n.to_string());
                c.replace(&format!("{{{name}}}"), &format!("{{{to}}}"))
                    .replace(&format!(" {name})"), &format!(" {to})"))
                    .replace(&format!("<{name} "), &format!("<{to} "))
            });
            list += &format!("    (hand!(|i| {call}), {input:?}, {want:?}),\n");
        }
        list += "]},\n";
    }
    s + &list + "]}\n"
}
