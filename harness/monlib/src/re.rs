//! A regular-expression AST with its own leftmost-first matcher (bounded backtracking), printer
//! and sampler. It defines "what the format means" without using the regex crate.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Empty,
    Char(char),
    /// ranges, negated. A negated set never matches nothing else than listed: `[^..]` includes '\n'
    Set(Vec<(char, char)>, bool),
    /// `.`: everything but '\n'
    Any,
    /// `\d`: the Unicode class of decimal digits
    UDigit,
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    /// node, min, max, greedy
    Rep(Box<Node>, u32, Option<u32>, bool),
    Cap(usize, Box<Node>),
}
use Node::*;

pub fn lit(s: &str) -> Node {
    Cat(s.chars().map(Char).collect())
}
/// ASCII case-insensitive literal
pub fn ci(s: &str) -> Node {
    Cat(s
        .chars()
        .map(|c| {
            if c.is_ascii_alphabetic() {
                let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase());
                Set(vec![(l, l), (u, u)], false)
            } else {
                Char(c)
            }
        })
        .collect())
}
/// case-insensitive literal with Unicode simple case folding (for ASCII letters and digits)
pub fn ci_unicode(s: &str) -> Node {
    Cat(s
        .chars()
        .map(|c| {
            if c.is_ascii_alphabetic() {
                let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase());
                let mut v = vec![(l, l), (u, u)];
                match l {
                    'k' => v.push(('\u{212a}', '\u{212a}')),
                    's' => v.push(('\u{17f}', '\u{17f}')),
                    _ => {}
                }
                Set(v, false)
            } else {
                Char(c)
            }
        })
        .collect())
}
pub fn set(ranges: &[(char, char)]) -> Node {
    Set(ranges.to_vec(), false)
}
pub fn digit() -> Node {
    set(&[('0', '9')])
}
pub fn opt(n: Node) -> Node {
    Rep(Box::new(n), 0, Some(1), true)
}
pub fn rep(n: Node, min: u32, max: Option<u32>) -> Node {
    Rep(Box::new(n), min, max, true)
}

impl Node {
    pub fn nullable(&self) -> bool {
        match self {
            Empty => true,
            Char(_) | Set(..) | Any | UDigit => false,
            Cat(v) => v.iter().all(|n| n.nullable()),
            Alt(v) => v.iter().any(|n| n.nullable()),
            Rep(n, min, _, _) => *min == 0 || n.nullable(),
            Cap(_, n) => n.nullable(),
        }
    }
}

#[derive(Debug, Clone)]
enum Inst {
    Char(char),
    Set(Vec<(char, char)>, bool),
    Any,
    UDigit,
    Split(usize, usize), // prefer first
    Jmp(usize),
    Save(usize),
    Match,
}

#[derive(Debug, Clone)]
pub struct Prog {
    insts: Vec<Inst>,
    pub ncaps: usize,
}

/// first digit of every decimal range of the Unicode category Nd
const ND: &[u32] = &[0x30, 0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66, 0xde6, 0xe50, 0xed0, 0xf20, 0x1040, 0x1090, 0x17e0, 0x1810, 0x1946, 0x19d0, 0x1a80, 0x1a90, 0x1b50, 0x1bb0, 0x1c40, 0x1c50, 0xa620, 0xa8d0, 0xa900, 0xa9d0, 0xa9f0, 0xaa50, 0xabf0, 0xff10, 0x104a0, 0x10d30, 0x10d40, 0x11066, 0x110f0, 0x11136, 0x111d0, 0x112f0, 0x11450, 0x114d0, 0x11650, 0x116c0, 0x116d0, 0x116da, 0x11730, 0x118e0, 0x11950, 0x11bf0, 0x11c50, 0x11d50, 0x11da0, 0x11f50, 0x16130, 0x16a60, 0x16ac0, 0x16b50, 0x16d70, 0x1ccf0, 0x1d7ce, 0x1d7d8, 0x1d7e2, 0x1d7ec, 0x1d7f6, 0x1e140, 0x1e2f0, 0x1e4f0, 0x1e5f1, 0x1e950, 0x1fbf0];
pub fn is_udigit(c: char) -> bool {
    c.is_ascii_digit() || (!c.is_ascii() && ND.iter().any(|a| (*a..*a + 10).contains(&(c as u32))))
}

pub type Caps = Vec<Option<(usize, usize)>>;

impl Prog {
    /// `ncaps`: number of capture slots (0 is the first placeholder, not the whole match)
    pub fn new(n: &Node, ncaps: usize) -> Prog {
        let mut p = Prog { insts: vec![], ncaps };
        p.emit(n);
        p.insts.push(Inst::Match);
        p
    }
    fn emit(&mut self, n: &Node) {
        match n {
            Empty => {}
            Char(c) => self.insts.push(Inst::Char(*c)),
            Set(r, neg) => self.insts.push(Inst::Set(r.clone(), *neg)),
            Any => self.insts.push(Inst::Any),
            UDigit => self.insts.push(Inst::UDigit),
            Cat(v) => v.iter().for_each(|n| self.emit(n)),
            Alt(v) => {
                let mut ends = vec![];
                for (i, n) in v.iter().enumerate() {
                    if i + 1 < v.len() {
                        let split = self.insts.len();
                        self.insts.push(Inst::Match); // patched
                        self.emit(n);
                        ends.push(self.insts.len());
                        self.insts.push(Inst::Match); // patched
                        self.insts[split] = Inst::Split(split + 1, self.insts.len());
                    } else {
                        self.emit(n);
                    }
                }
                let end = self.insts.len();
                for e in ends {
                    self.insts[e] = Inst::Jmp(end);
                }
            }
            Rep(n, min, max, greedy) => {
                for _ in 0..*min {
                    self.emit(n);
                }
                let mk = |a, b| if *greedy { Inst::Split(a, b) } else { Inst::Split(b, a) };
                match max {
                    None => {
                        let split = self.insts.len();
                        self.insts.push(Inst::Match);
                        self.emit(n);
                        self.insts.push(Inst::Jmp(split));
                        self.insts[split] = mk(split + 1, self.insts.len());
                    }
                    Some(max) => {
                        let mut splits = vec![];
                        for _ in *min..*max {
                            splits.push(self.insts.len());
                            self.insts.push(Inst::Match);
                            self.emit(n);
                        }
                        let end = self.insts.len();
                        for s in splits {
                            self.insts[s] = mk(s + 1, end);
                        }
                    }
                }
            }
            Cap(i, n) => {
                self.insts.push(Inst::Save(2 * i));
                self.emit(n);
                self.insts.push(Inst::Save(2 * i + 1));
            }
        }
    }
    /// Anchored match of the entire input. Offsets are byte offsets.
    pub fn match_full(&self, input: &str) -> Option<Caps> {
        let chars: Vec<(usize, char)> = input.char_indices().collect();
        let n = chars.len();
        let mut visited = vec![0u64; (self.insts.len() * (n + 1) + 63) / 64];
        let mut saves: Vec<usize> = vec![usize::MAX; 2 * self.ncaps];
        enum Job {
            Try(usize, usize),
            Restore(usize, usize),
        }
        let mut stack = vec![Job::Try(0, 0)];
        while let Some(job) = stack.pop() {
            let (mut pc, mut pos) = match job {
                Job::Restore(slot, old) => {
                    saves[slot] = old;
                    continue;
                }
                Job::Try(pc, pos) => (pc, pos),
            };
            loop {
                let bit = pc * (n + 1) + pos;
                if visited[bit / 64] >> (bit % 64) & 1 == 1 {
                    break;
                }
                visited[bit / 64] |= 1 << (bit % 64);
                match &self.insts[pc] {
                    Inst::Match => {
                        if pos == n {
                            let caps = (0..self.ncaps)
                                .map(|i| {
                                    let (a, b) = (saves[2 * i], saves[2 * i + 1]);
                                    if a == usize::MAX || b == usize::MAX {
                                        None
                                    } else {
                                        Some((a, b))
                                    }
                                })
                                .collect();
                            return Some(caps);
                        }
                        break;
                    }
                    Inst::Jmp(t) => pc = *t,
                    Inst::Split(a, b) => {
                        stack.push(Job::Try(*b, pos));
                        pc = *a;
                    }
                    Inst::Save(slot) => {
                        stack.push(Job::Restore(*slot, saves[*slot]));
                        saves[*slot] = if pos == n { input.len() } else { chars[pos].0 };
                        pc += 1;
                    }
                    other => {
                        if pos == n {
                            break;
                        }
                        let c = chars[pos].1;
                        let ok = match other {
                            Inst::Char(x) => *x == c,
                            Inst::Any => c != '\n',
                            Inst::UDigit => is_udigit(c),
                            Inst::Set(r, neg) => r.iter().any(|(a, b)| *a <= c && c <= *b) != *neg,
                            _ => unreachable!(),
                        };
                        if !ok {
                            break;
                        }
                        pos += 1;
                        pc += 1;
                    }
                }
            }
        }
        None
    }
}

/// Characters used for "anything" when sampling
pub const ANY_CHARS: &[char] = &[
    'a', 'b', 'Z', 'x', '0', '1', '9', ' ', '-', '+', '.', ',', ':', '/', '\\', '{', '}', '(', ')',
    '[', ']', '*', '?', '^', '$', '|', '#', '&', '~', '_', '"', '\'', '\t', '\r', '\0', 'é', 'ß',
    'λ', '中', '🦀', '\u{301}', '\u{200d}', '\u{feff}', '\u{2028}', '\u{7f}', '\u{85}', '\u{17f}', '\u{212a}',
    'İ', 'ı', '\u{10ffff}', 'n', 't', 'f', 'e', 'E', 'i',
];

impl Node {
    /// Produces a string in the language. `long`: how far unbounded repetitions go
    pub fn sample(&self, r: &mut Rng, long: u32, out: &mut String) {
        match self {
            Empty => {}
            Char(c) => out.push(*c),
            Any => out.push(*r.pick(ANY_CHARS)),
            UDigit if r.chance(1, 200) => out.push(*r.pick(&['１', '٣', '𝟗'])),
            UDigit => out.push(*r.pick(&['0', '1', '9', '0', '1', '9', '2', '3', '4', '5', '6', '7', '8'])),
            Set(ranges, false) => {
                let (a, b) = *r.pick(ranges);
                // endpoints are the interesting ones
                let c = match r.below(4) {
                    0 => a,
                    1 => b,
                    _ => {
                        let span = b as u32 - a as u32 + 1;
                        char::from_u32(a as u32 + (r.next() % span as u64) as u32).unwrap_or(a)
                    }
                };
                out.push(c);
            }
            Set(ranges, true) => loop {
                let c = *r.pick(ANY_CHARS);
                if !ranges.iter().any(|(a, b)| *a <= c && c <= *b) {
                    out.push(c);
                    break;
                }
            },
            Cat(v) => v.iter().for_each(|n| n.sample(r, long, out)),
            Alt(v) => r.pick(v).sample(r, long, out),
            Rep(n, min, max, _) => {
                let max = max.unwrap_or(min + long);
                let k = match r.below(5) {
                    0 => *min,
                    1 => max,
                    _ => r.range(*min as usize, max as usize) as u32,
                };
                for _ in 0..k {
                    n.sample(r, long, out);
                }
            }
            Cap(_, n) => n.sample(r, long, out),
        }
    }

    /// Prints as regex syntax without capture groups. All chars that could have a meaning are escaped.
    pub fn print(&self, r: &mut Rng) -> String {
        match self {
            Empty => String::new(),
            Char(c) => print_char(*c, r, false),
            Any => ".".into(),
            UDigit => "\\d".into(),
            Set(ranges, neg) => {
                if !*neg && ranges[..] == [('0', '9')] && r.chance(1, 2) {
                    return r.pick(&["[0-9]", r"[[:digit:]]", r"(?-u:\d)"]).to_string();
                }
                let mut s = String::from(if *neg { "[^" } else { "[" });
                for (a, b) in ranges {
                    s += &print_char(*a, r, true);
                    if a != b {
                        s.push('-');
                        s += &print_char(*b, r, true);
                    }
                }
                s.push(']');
                s
            }
            Cat(v) => v
                .iter()
                .map(|n| match n {
                    Alt(_) => format!("(?:{})", n.print(r)),
                    _ => n.print(r),
                })
                .collect(),
            Alt(v) => v.iter().map(|n| n.print(r)).collect::<Vec<_>>().join("|"),
            Rep(n, min, max, greedy) => {
                let inner = n.print(r);
                let inner = match **n {
                    Char(_) | Set(..) | Any | UDigit => inner,
                    _ => format!("(?:{inner})"),
                };
                let q = match (min, max) {
                    (0, None) => "*".to_string(),
                    (1, None) => "+".to_string(),
                    (0, Some(1)) => "?".to_string(),
                    (a, None) => format!("{{{a},}}"),
                    (a, Some(b)) if a == b => format!("{{{a}}}"),
                    (a, Some(b)) => format!("{{{a},{b}}}"),
                };
                format!("{inner}{q}{}", if *greedy { "" } else { "?" })
            }
            Cap(_, n) => match **n {
                Alt(_) => format!("(?:{})", n.print(r)),
                _ => n.print(r),
            },
        }
    }
}

fn print_char(c: char, r: &mut Rng, in_class: bool) -> String {
    match c {
        '\n' => "\\n".into(),
        '\r' => "\\r".into(),
        '\t' if r.chance(1, 2) => "\\t".into(),
        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#' | '&' | '-' | '~' => {
            format!("\\{c}")
        }
        c if (c as u32) < 0x20 || c as u32 == 0x7f => format!("\\x{:02x}", c as u32),
        c if !c.is_ascii() && r.chance(1, 4) => format!("\\x{{{:X}}}", c as u32),
        ' ' if in_class => " ".into(),
        c if c.is_ascii_alphanumeric() && r.chance(1, 30) => format!("\\x{:02X}", c as u32),
        c => c.to_string(),
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basic() {
        let n = Cat(vec![
            Cap(0, Box::new(Rep(Box::new(Any), 1, None, false))),
            Char('-'),
            Cap(1, Box::new(Rep(Box::new(Any), 1, None, false))),
        ]);
        let p = Prog::new(&n, 2);
        assert_eq!(p.match_full("a-b-c"), Some(vec![Some((0, 1)), Some((2, 5))]));
        assert_eq!(p.match_full("--"), None);
        assert_eq!(p.match_full("---"), Some(vec![Some((0, 1)), Some((2, 3))]));
        let n = Cat(vec![
            Cap(0, Box::new(rep(digit(), 1, Some(3)))),
            Cap(1, Box::new(rep(digit(), 1, Some(3)))),
        ]);
        let p = Prog::new(&n, 2);
        assert_eq!(p.match_full("1234"), Some(vec![Some((0, 3)), Some((3, 4))]));
        assert_eq!(p.match_full("12"), Some(vec![Some((0, 1)), Some((1, 2))]));
    }
}
