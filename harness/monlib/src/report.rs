//! What a monitor observed, written as JSON for the driver.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

pub struct Report {
    pub property: String,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    max_samples: usize,
}

impl Report {
    pub fn new(property: &str) -> Self {
        Report {
            property: property.to_string(),
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            max_samples: 12,
        }
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
    /// one observed execution; `key` identifies it, `nontrivial` if it counts as non-trivial
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < self.max_samples {
                self.samples.push(s);
            }
        }
        for v in o.violations {
            if self.violations.len() < 30 {
                self.violations.push(v);
            }
        }
    }
    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < self.max_samples {
            self.samples.push(s());
        }
    }
    /// `sig`: stable identification of the failing thing
    pub fn violation(&mut self, sig: impl Into<String>, what: impl Into<String>) {
        self.count("violations");
        if self.violations.len() < 30 {
            self.violations.push((sig.into(), what.into()));
        }
    }
    pub fn to_json(&self) -> String {
        let mut s = String::new();
        write!(
            s,
            "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{}",
            json(&self.property),
            self.evaluations,
            self.distinct.len()
        )
        .unwrap();
        s += ",\"counters\":{";
        for (i, (k, v)) in self.counters.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            write!(s, "{}:{}", json(k), v).unwrap();
        }
        s += "},\"samples\":[";
        s += &self.samples.iter().map(|x| json(&clip(x, 600))).collect::<Vec<_>>().join(",");
        s += "],\"violations\":[";
        s += &self
            .violations
            .iter()
            .map(|(a, b)| format!("{{\"sig\":{},\"what\":{}}}", json(a), json(&clip(b, 4000))))
            .collect::<Vec<_>>()
            .join(",");
        s += "]}";
        s
    }
    /// Writes the report to $VERIF_OUT (or stdout)
    pub fn finish(self) {
        let j = self.to_json();
        match std::env::var("VERIF_OUT") {
            Ok(p) => std::fs::write(p, j).unwrap(),
            Err(_) => println!("{j}"),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
