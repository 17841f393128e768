//! State of one worker.
use crate::report::Report;
use std::fs::File;
use std::os::unix::fs::FileExt;

pub struct Cx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub case: u64,
    /// fewer calls per case, for slow instruments
    pub light: bool,
    pub rep: Report,
    /// eight bytes per case: digest of what was observed (C01: verdict; C10: result digest)
    pub digests: Vec<u64>,
    pub state: Option<File>,
}

impl Cx {
    /// Record which case is running, so that a death of the process can be attributed.
    pub fn begin(&mut self, case: u64) {
        self.case = case;
        if let Some(f) = &self.state {
            let _ = f.write_at(&case.to_le_bytes(), 0);
        }
    }
    pub fn violate(&mut self, what: String, input: String) {
        let c = self.case;
        self.rep.violate(c, what, input);
    }
    /// Check of one numeric fact.
    pub fn ensure(&mut self, ok: bool, what: impl FnOnce() -> (String, String)) {
        if !ok {
            let (w, i) = what();
            self.violate(w, i);
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs `f`, reporting a panic as Err with its message and place.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
