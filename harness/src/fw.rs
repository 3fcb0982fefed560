//! Monitor framework: one "case" = one generated execution of the real code, judged by an oracle.
use crate::rng::{mix, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable class of the violation (used for de-duplication and known findings)
    pub key: String,
    pub msg: String,
}
pub type CaseResult = Result<(), Viol>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub tier: Tier,
    pub desc: String,
    pub sig: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
}

impl Case {
    pub fn new(prop: &str, seed: u64, index: u64, tier: Tier) -> Self {
        let s = mix(&[crate::rng::hash_bytes(prop.as_bytes()), seed, index]);
        Case {
            rng: Rng::new(s),
            index,
            tier,
            desc: String::new(),
            sig: 0,
            nontrivial: false,
            counters: BTreeMap::new(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 1500 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(s.as_ref());
        }
    }
    pub fn sign(&mut self, x: u64) {
        self.sig = mix(&[self.sig, x]);
    }
}

#[macro_export]
macro_rules! viol {
    ($key:expr, $($a:tt)*) => { $crate::fw::Viol { key: ($key).to_string(), msg: format!($($a)*) } };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return Err($crate::viol!($key, $($a)*)); } };
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Outcome of running one piece of code under test.
pub enum Ran<T> {
    Ok(T),
    /// location, message
    Panic(String, String),
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Ran<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ran::Ok(v),
        Err(_) => {
            let (l, m) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            Ran::Panic(l, m)
        }
    }
}

/// Strip a path:line to its file name, so that keys do not move with line numbers.
pub fn loc_file(loc: &str) -> String {
    loc.split(':')
        .next()
        .unwrap_or("")
        .rsplit('/')
        .next()
        .unwrap_or("")
        .to_string()
}
