//! What a worker observed: counters, samples, distinct cases, violations. Written as JSON.
use std::collections::{BTreeMap, HashSet};

pub struct Violation {
    pub case: u64,
    pub what: String,
    pub input: String,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub extra: Vec<(String, String)>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}... ({} chars)", s.chars().take(n).collect::<String>(), s.chars().count())
    }
}

impl Report {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// One judged case. `key`: identity of the case; `nontrivial`: by the property's rule.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let n = self.samples.len();
        let due = match n {
            0 => true,
            1 => self.evaluations > 50,
            2 => self.evaluations > 400,
            _ => false,
        };
        if due {
            self.samples.push(clip(&s(), 500));
        }
    }
    pub fn violate(&mut self, case: u64, what: String, input: String) {
        if self.violations.len() < 5 {
            self.violations.push(Violation { case, what, input });
        }
        self.count("violations");
    }
    pub fn stop(&self) -> bool {
        self.violations.len() >= 3
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o += &format!("\"evaluations\":{},\"distinct\":{}", self.evaluations, self.distinct.len());
        o += ",\"counters\":{";
        o += &self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"samples\":[";
        o += &self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o += "],\"inconclusive\":[";
        o += &self.inconclusive.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o += "],\"extra\":{";
        o += &self.extra.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(",");
        o += "},\"violations\":[";
        o += &self
            .violations
            .iter()
            .map(|v| format!("{{\"case\":{},\"what\":{},\"input\":{}}}", v.case, esc(&clip(&v.what, 2000)), esc(&clip(&v.input, 200_000))))
            .collect::<Vec<_>>()
            .join(",");
        o += "]}\n";
        o
    }
}
