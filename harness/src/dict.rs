//! Workload dictionary: literals harvested from the current source tree by check.py. They only
//! steer the workload (sizes, values, strings); no verdict depends on them.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
    pub strs: Vec<String>,
    pub chars: Vec<char>,
}

static D: OnceLock<Dict> = OnceLock::new();

pub fn load(path: Option<&str>) {
    let mut d = Dict::default();
    if let Some(p) = path {
        if let Ok(s) = std::fs::read_to_string(p) {
            for line in s.lines() {
                let (k, v) = line.split_at(1);
                let v = &v[1..];
                match k {
                    "i" => d.ints.extend(v.parse::<i64>().ok()),
                    "f" => d.floats.extend(v.parse::<f64>().ok()),
                    "s" => d.strs.push(v.to_string()),
                    "c" => d.chars.extend(v.chars().next()),
                    _ => (),
                }
            }
        }
    }
    if d.ints.is_empty() {
        d.ints = vec![0, 1, 2, 3, 4, 8, 16];
    }
    if d.floats.is_empty() {
        d.floats = vec![0.0, 1.0, 0.5];
    }
    if d.strs.is_empty() {
        d.strs = vec!["float".into(), "rgb".into()];
    }
    if d.chars.is_empty() {
        d.chars = vec!['#', '"'];
    }
    let _ = D.set(d);
}

pub fn get() -> &'static Dict {
    D.get_or_init(|| {
        let mut d = Dict::default();
        d.ints = vec![0, 1, 2, 3, 4, 8, 16];
        d.floats = vec![0.0, 1.0, 0.5];
        d.strs = vec!["float".into(), "rgb".into()];
        d.chars = vec!['#', '"'];
        d
    })
}
