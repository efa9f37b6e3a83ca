"""P13: what the borrow checker has to accept and to reject"""
import ct

DEFS = """
use sscanf::{sscanf, sscanf_unescaped, FromScanf};
use std::borrow::Cow;
use std::collections::HashMap;
#[derive(FromScanf, Debug, Clone)] #[sscanf("{a}={b}")] pub struct Kv<'x> { pub a: &'x str, pub b: &'x str }
#[derive(FromScanf, Debug, Clone)] #[sscanf("{a};{b}")] pub struct Two<'x, 'y> { pub b: &'y str, pub a: &'x str }
#[derive(FromScanf, Debug, Clone)] pub enum En<'l> { #[sscanf("n{}")] N(u8), #[sscanf("k{k}")] K { k: Cow<'l, str> } }
#[derive(FromScanf, Debug, Clone)] #[sscanf("{}={}")] pub struct Own(pub String, #[sscanf(map = |s: &str| s.to_string())] pub String);
#[derive(FromScanf, Debug, Clone)] #[sscanf(transparent)] pub struct Tr<'a>(pub &'a str);
#[derive(FromScanf, Debug, Clone)] #[sscanf("{a}")] pub struct Mp<'a> { #[sscanf(map = |s: &'a str| s.split_at(1))] pub a: (&'a str, &'a str) }
"""
# uses that keep what the input lives for; has to define `pub fn run() -> bool`
GOOD = {
    "returned": """fn f(x: &str) -> Option<&str> { sscanf!(x, "a{}b", str).ok() } pub fn run() -> bool { let o = String::from("axb"); f(&o) == Some("x") }""",
    "returned with a name": """fn f<'a, 'b>(x: &'a str, _: &'b str) -> Option<(&'a str, Cow<'a, str>)> { sscanf!(x, "{},{}", str, Cow<str>).ok() }
        pub fn run() -> bool { let o = String::from("a,b"); let r = { let t = String::new(); f(&o, &t) }; r.unwrap().1 == "b" }""",
    "returned from &String": """fn f<'a>(x: &'a String) -> Result<&'a str, sscanf::Error> { let r = sscanf!(x, "a{str}")?; Ok(r) } pub fn run() -> bool { f(&"ab".to_string()).unwrap() == "b" }""",
    "returned from a field": """struct S { text: String } impl S { fn f(&self) -> Option<&str> { sscanf!(self.text, "a{str}").ok() } fn g(&self) -> Option<Kv<'_>> { sscanf!(self.text, "{Kv}").ok() } }
        pub fn run() -> bool { let s = S { text: "ab=c".into() }; s.f() == Some("b=c") && s.g().unwrap().b == "c" }""",
    "literal is static": """fn f() -> &'static str { sscanf!("abc", "a{}", str).unwrap() } pub fn run() -> bool { let x: &'static str = f(); let k: Kv<'static> = sscanf!("a=b", "{Kv}").unwrap(); x == "bc" && k.b == "b" }""",
    "outlives the reference": """pub fn run() -> bool { let o = String::from("a=b"); let r; { let p: &str = &o; r = sscanf!(p, "{Kv}").unwrap(); } let s; { let p = &&o; s = sscanf!(p, "{str}").unwrap(); } r.a == "a" && s == "a=b" }""",
    "outlives a copied reference": """pub fn run() -> bool { let o = String::from("a=b"); let r = { let p = &o[..]; let q = p; Two::from_str(q).is_err() && Kv::from_str(q).is_ok() }; let k = { let p: &str = &o; Kv::from_str(p).unwrap() }; r && k.a == "a" }""",
    "owned after the input is gone": """pub fn run() -> bool { let r = { let o = String::from("a=5"); sscanf!(o, "{String}={u8}").unwrap() }; let s = { let o = String::from("a=5"); sscanf!(o, "{Own}").unwrap() };
        let p = { let o = String::from("/x"); sscanf!(o, "{}", std::path::PathBuf).unwrap() }; let c: Cow<'static, str> = { let o = String::from("c"); Cow::Owned(sscanf!(o, "{}", Cow<str>).unwrap().into_owned()) };
        r.1 == 5 && s.1 == "5" && p.to_str() == Some("/x") && c == "c" }""",
    "owned after the input is changed": """pub fn run() -> bool { let mut o = String::from("a5"); let r = sscanf!(o, "a{u8}"); o.push('x'); let t = sscanf!(o, "{String}"); o.clear(); let b = sscanf!(o, "").is_ok(); drop(o); r.unwrap() == 5 && t.unwrap() == "a5x" && b }""",
    "errors do not borrow": """pub fn run() -> bool { let e: sscanf::Error = { let o = String::from("x"); sscanf!(o, "{u8}").unwrap_err() }; let f: Box<dyn std::error::Error + 'static> = { let o = String::from("300"); sscanf!(o, "{u16}{u8:/30/}x").map(|_| ()).unwrap_err().into() };
        let g: Box<dyn std::error::Error> = { let o = String::from("n300"); sscanf!(o, "{En}").map(|_| ()).unwrap_err().into() }; e.to_string().len() > 1 && f.to_string().len() > 1 && g.to_string().len() > 1 }""",
    "borrowed while the input is only read": """pub fn run() -> bool { let o = String::from("a=b"); let k = sscanf!(o, "{Kv}").unwrap(); let n = o.len(); let k2 = sscanf!(o, "{Kv}").unwrap(); let p = &o; k.a == k2.a && n == p.len() && k.b == "b" }""",
    "changed after the last use": """pub fn run() -> bool { let mut o = String::from("a=b"); let n = { let k = sscanf!(o, "{Kv}").unwrap(); k.a.len() }; o.push('c'); let k = sscanf!(o, "{Kv}").unwrap(); let b = k.b == "bc"; o.clear(); b && n == 1 }""",
    "collected": """fn f(x: &str) -> HashMap<&str, &str> { x.lines().filter_map(|l| sscanf!(l, "{str}={str}").ok()).collect() }
        fn g<'a>(x: &'a [String]) -> Vec<Kv<'a>> { let mut v = vec![]; for l in x { if let Ok(k) = sscanf!(l, "{Kv}") { v.push(k) } } v }
        pub fn run() -> bool { let o = String::from("a=b\\nc=d"); let m = f(&o); let v = [String::from("q=r")]; let w = g(&v); m["c"] == "d" && w[0].b == "r" }""",
    "scoped thread": """pub fn run() -> bool { let o = String::from("a=b"); let k = sscanf!(o, "{Kv}").unwrap(); std::thread::scope(|s| s.spawn(|| k.a.len() + o.len()).join().unwrap()) == 4 }""",
    "two lifetimes": """fn f<'a>(x: &'a str) -> Two<'a, 'a> { sscanf!(x, "{Two}").unwrap() } fn g<'a, 'b>(t: Two<'a, 'b>) -> (&'a str, &'b str) { (t.a, t.b) } pub fn run() -> bool { let o = String::from("a;b"); let t = f(&o); g(t).1 == "b" }""",
    "nested": """fn f<'a>(x: &'a str) -> Option<&'a str> { Some(sscanf!(x, "<{Kv}>").ok()?.b) } fn g<'z>(x: &'z str) -> En<'z> { En::from_str(x).unwrap() } pub fn run() -> bool { let o = String::from("<a=b>"); let p = String::from("kx"); f(&o) == Some("b") && matches!(g(&p), En::K { k } if k == "x") }""",
    "transparent": """fn f(x: &str) -> &str { sscanf!(x, "{Tr}").unwrap().0 } pub fn run() -> bool { f(&String::from("ab")) == "ab" }""",
    "cow stays borrowed": """fn f(x: &str) -> Cow<'_, str> { sscanf!(x, "{}", Cow<'_, str>).unwrap() } pub fn run() -> bool { matches!(f(&String::from("ab")), Cow::Borrowed("ab")) }""",
    "assigned to a longer living variable": """pub fn run() -> bool { let o = String::from("a,b"); let mut r: &str = ""; for _ in 0..2 { let (x, y) = sscanf!(o, "{},{}", str, str).unwrap(); r = x; let _ = y; } r == "a" }""",
    "shortened": """fn f<'a>(x: &'static str, y: &'a str) -> [&'a str; 2] { [sscanf!(x, "{str}").unwrap(), sscanf!(y, "{str}").unwrap()] } pub fn run() -> bool { f("s", &String::from("y"))[1] == "y" }""",
    "inputs are not moved": """pub fn run() -> bool { let a = String::from("1"); let b: Box<str> = "2".into(); let c = std::rc::Rc::<str>::from("3"); let d = Cow::Borrowed("4"); let n = sscanf!(a, "{u8}").unwrap() + sscanf!(b, "{u8}").unwrap() + sscanf!(c, "{u8}").unwrap() + sscanf!(d, "{u8}").unwrap(); (a, b, c, d).0 == "1" && n == 10 }""",
    "input of a shared reference": """fn f(x: &std::cell::RefCell<String>) -> u8 { let r = x.borrow(); sscanf!(r, "{u8}").unwrap() } pub fn run() -> bool { let c = std::cell::RefCell::new(String::from("7")); f(&c) == 7 && c.try_borrow_mut().is_ok() }""",
    "unescaped": """fn f(x: &str) -> Option<&str> { sscanf_unescaped!(x, "a*{}b*", str).ok() } pub fn run() -> bool { f(&String::from("axb")) == Some("x") }""",
    "manual implementation": """#[derive(Debug)] pub struct M<'a>(&'a str, &'a str); impl<'a> sscanf::RegexRepresentation for M<'a> { const REGEX: &'static str = "([a-z])([a-z])"; }
        impl<'a> FromScanf<'a> for M<'a> { type Err = std::convert::Infallible; const NUM_CAPTURES: usize = 3; fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 'a>) -> Result<Self, Self::Err> { src.next(); let a = src.next().unwrap().unwrap().as_str(); let b = src.next().unwrap().unwrap().as_str(); Ok(M(a, b)) } }
        fn f<'a>(x: &'a str) -> &'a str { sscanf!(x, "{M}!").unwrap().1 } pub fn run() -> bool { let o = String::from("ab!"); f(&o) == "b" }""",
    "fields that live for any time": """#[derive(FromScanf)] #[sscanf("{a}")] pub struct G<'a, T: Default + 'a> { pub a: &'a str, #[sscanf(default)] pub t: Option<&'a T> } fn f<'a>(x: &'a str) -> G<'a, u8> { G::from_str(x).unwrap() } pub fn run() -> bool { let o = String::from("a"); f(&o).a == "a" && f(&o).t.is_none() }""",
}
# uses that let a result outlive the input
BAD = {
    "returned slice of a local": """pub fn f() -> &'static str { let o = String::from("axb"); sscanf!(o, "a{}b", str).unwrap() }""",
    "returned cow of a local": """pub fn f<'a>() -> Cow<'a, str> { let o = String::from("axb"); sscanf!(o, "a{}b", Cow<str>).unwrap() }""",
    "returned type of a local": """pub fn f<'a>() -> Kv<'a> { let o = String::from("a=b"); sscanf!(o, "{Kv}").unwrap() }""",
    "returned enum of a parameter": """pub fn f<'a>(o: String) -> En<'a> { En::from_str(&o).unwrap() }""",
    "returned part of a type of a parameter": """pub fn f<'a>(o: String) -> &'a str { sscanf!(o, "<{Kv}>").unwrap().b }""",
    "returned transparent of a parameter": """pub fn f<'a>(o: String) -> &'a str { sscanf!(o, "{Tr}").unwrap().0 }""",
    "end of scope, slice": """pub fn f() { let r; { let o = String::from("ab"); r = sscanf!(o, "a{}", str).unwrap(); } println!("{r}"); }""",
    "end of scope, cow": """pub fn f() { let r; { let o = String::from("ab"); r = sscanf!(o, "a{}", Cow<str>).unwrap(); } println!("{r}"); }""",
    "end of scope, type": """pub fn f() { let r; { let o = String::from("a=b"); r = sscanf!(o, "{Kv}").unwrap(); } println!("{r:?}"); }""",
    "end of scope, from_str": """pub fn f() { let r; { let o = String::from("a=b"); r = Kv::from_str(&o); } println!("{r:?}"); }""",
    "end of scope, first lifetime": """pub fn f() { let r; { let o = String::from("a;b"); r = sscanf!(o, "{Two}").unwrap().a; } println!("{r:?}"); }""",
    "end of scope, second lifetime": """pub fn f() { let r; { let o = String::from("a;b"); r = sscanf!(o, "{Two}").unwrap().b; } println!("{r:?}"); }""",
    "end of scope, unescaped": """pub fn f() { let r; { let o = String::from("ab"); r = sscanf_unescaped!(o, "a{}", str).unwrap(); } println!("{r}"); }""",
    "end of scope, second of three": """pub fn f() { let r; { let o = String::from("1a2"); r = sscanf!(o, "{}{}{}", u8, str, u8).unwrap().1; } println!("{r}"); }""",
    "end of scope, mapped": """pub fn f() { let r; { let o = String::from("abc"); r = sscanf!(o, "{Mp}").unwrap().a.1; } println!("{r}"); }""",
    "end of scope, error kept with the value": """pub fn f() { let r: Result<&str, sscanf::Error>; { let o = String::from("ab"); r = sscanf!(o, "{str}"); } println!("{r:?}"); }""",
    "dropped": """pub fn f() { let o = String::from("ab"); let r = sscanf!(o, "a{}", str).unwrap(); drop(o); println!("{r}"); }""",
    "moved": """pub fn f() { let o = String::from("ab"); let r = sscanf!(o, "{Tr}").unwrap(); let p = o; println!("{r:?}{p}"); }""",
    "moved into a thread": """pub fn f() { let o = String::from("ab"); let r = sscanf!(o, "a{}", str).unwrap(); std::thread::spawn(move || println!("{r}")); }""",
    "changed": """pub fn f() { let mut o = String::from("ab"); let r = sscanf!(o, "a{}", str).unwrap(); o.push('x'); println!("{r}"); }""",
    "changed, cow": """pub fn f() { let mut o = String::from("ab"); let r = sscanf!(o, "a{}", Cow<str>).unwrap(); o.clear(); println!("{r}"); }""",
    "assigned": """pub fn f() { let mut o = String::from("a=b"); let r = sscanf!(o, "{Kv}").unwrap(); o = String::new(); println!("{r:?}{o}"); }""",
    "made static": """pub fn f(x: &str) -> &'static str { sscanf!(x, "{str}").unwrap() }""",
    "made static, type": """pub fn f(x: &str) -> Kv<'static> { sscanf!(x, "{Kv}").unwrap() }""",
    "made static, cow": """pub fn f(x: &str) -> Cow<'static, str> { sscanf!(x, "{}", Cow<str>).unwrap() }""",
    "made static, from_str": """pub fn f(x: &str) -> En<'static> { En::from_str(x).unwrap() }""",
    "made static, annotated": """pub fn f(x: &str) -> Cow<'static, str> { sscanf!(x, "{}", Cow<'static, str>).unwrap() }""",
    "wrong parameter": """pub fn f<'a, 'b>(x: &'a str, _: &'b str) -> &'b str { sscanf!(x, "{str}").unwrap() }""",
    "wrong lifetime of two": """pub fn f<'a, 'b>(x: &'a str, _: &'b str) -> Two<'a, 'b> { sscanf!(x, "{Two}").unwrap() }""",
    "wrong lifetime of two, first": """pub fn f<'a, 'b>(x: &'a str, _: &'b str) -> Two<'b, 'a> { sscanf!(x, "{Two}").unwrap() }""",
    "temporary": """pub fn f() { let r = sscanf!(String::from("ab"), "{str}").unwrap(); println!("{r}"); }""",
    "collected from temporaries": """pub fn f() -> Vec<&'static str> { (0..3).map(|i| sscanf!(i.to_string(), "{str}").unwrap()).collect() }""",
    "guard released": """pub fn f(m: &std::sync::Mutex<String>) -> &str { let g = m.lock().unwrap(); sscanf!(g, "{str}").unwrap() }""",
    "two in a loop": """pub fn f() { let mut o = String::from("ab"); let mut v: Vec<Tr> = vec![]; for _ in 0..2 { v.push(sscanf!(o, "{Tr}").unwrap()); o.push('x'); } println!("{v:?}"); }""",
}
CODES = {"E0597", "E0505", "E0506", "E0716", "E0515", "E0502", "E0499", "E0521", "E0510", "E0594"}
HEADER = "#![allow(dead_code, unused, clippy::all)]\n" + DEFS


def wrap(n, text):
    return "mod m%d { use super::*;\n%s\n}\n" % (n, text)


def check(d, res):
    for ed in (["2021", "2024"] if res.tier == "quick" else ["2018", "2021", "2024"]):
        names = list(GOOD)
        footer = "fn main() { %s }\n" % " ".join('println!("%d {:?}", std::panic::catch_unwind(m%d::run).ok());' % (n, n) for n in range(len(names)))
        out = ct.compile_snippets(d, "p13g", [wrap(n, GOOD[k]) for n, k in enumerate(names)], header=HEADER, edition=ed, cmd="build", footer=footer)
        for k, diags in zip(names, out.by):
            res.evaluations += 1
            res.distinct += 1
            res.count("lifetimes: accepted programs")
            for g in diags:
                if g.level != "warning":
                    res.violation("accept|%s" % k, "should be accepted (edition %s): %s\n%s\n%s" % (ed, k, GOOD[k], g.rendered[:2500]))
        for g in out.rest:
            res.violation("accept|" + g.message, g.rendered[:2500])
        if out.rc == 0:
            rc, so, se = d.run([out.exe], d.ROOT, {}, 60)
            seen = dict(l.split(" ", 1) for l in so.splitlines())
            for n, k in enumerate(names):
                if seen.get(str(n)) != "Some(true)":
                    res.violation("run|" + k, "%s\n%s\n=> %s\n%s" % (k, GOOD[k], seen.get(str(n)), se[-500:]))
        elif not res.violations:
            raise d.Inconclusive(out.stderr[-2000:])
        names = list(BAD)
        out = ct.compile_snippets(d, "p13b", [wrap(n, BAD[k]) for n, k in enumerate(names)], header=HEADER, edition=ed)
        for k, diags in zip(names, out.by):
            res.evaluations += 1
            res.distinct += 1
            res.count("lifetimes: rejected programs")
            errs = [g for g in diags if g.level == "error"]
            if not errs:
                res.violation("reject|" + k, "accepted, but a result outlives its input (edition %s): %s\n%s" % (ed, k, BAD[k]))
            for g in errs:
                if g.code not in CODES and "lifetime may not live long enough" not in g.message:
                    res.violation("reject|" + k, "rejected for another reason (edition %s): %s\n%s\n%s" % (ed, k, BAD[k], g.rendered[:2000]))
        for g in out.rest:
            if g.level == "error":
                res.violation("reject|" + g.message, g.rendered[:2500])
        if res.violations:
            return
