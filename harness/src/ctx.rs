use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// the case being run, for the watchdog and for what ends the process
pub static CURRENT: Mutex<Option<(String, Vec<u64>, Instant)>> = Mutex::new(None);
pub static TRACE: Mutex<Option<String>> = Mutex::new(None);

/// A case is a deterministic function of its parameters. Ok(fingerprint): the contract held on the
/// real code, fingerprint 0 marks a trivial case. Err: the contract is broken.
pub type CaseFn = fn(&[u64]) -> Result<u64, String>;

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

pub fn guarded(f: CaseFn, p: &[u64]) -> Result<u64, String> {
    match catch_unwind(AssertUnwindSafe(|| f(p))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// runs `f`, turning a panic to an Err with the place of the panic
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Violation {
    pub case: String,
    pub params: Vec<u64>,
    pub message: String,
}
pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub evals: u64,
    pub per_gen: Vec<(String, u64)>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub known_hits: HashSet<String>,
}
impl Ctx {
    pub fn case(&mut self, name: &str, f: CaseFn, params: &[u64]) {
        if self.violations.len() >= 3 {
            return;
        }
        self.evals += 1;
        match self.per_gen.iter_mut().find(|(n, _)| n == name) {
            Some(x) => x.1 += 1,
            None => {
                self.per_gen.push((name.to_string(), 1));
            }
        }
        let first = self.per_gen.iter().find(|(n, _)| n == name).unwrap().1;
        *CURRENT.lock().unwrap() = Some((name.to_string(), params.to_vec(), Instant::now()));
        if let Some(t) = &*TRACE.lock().unwrap() {
            let _ = std::fs::write(t, format!("{{\"case\": \"{}\", \"params\": {:?}}}", name, params));
        }
        let res = guarded(f, params);
        *CURRENT.lock().unwrap() = None;
        match res {
            Ok(fp) => {
                if fp != 0 {
                    self.distinct.insert(fp ^ hash_str(name));
                }
                if first == 1 || (first % 997 == 0 && self.samples.len() < 12) {
                    self.samples.push(format!("{} {:?}", name, params));
                }
            }
            Err(m) => {
                if let Some(k) = self.known.iter().find(|k| m.contains(k.as_str())) {
                    self.known_hits.insert(k.clone());
                    return;
                }
                self.violations.push(Violation { case: name.into(), params: params.to_vec(), message: m });
            }
        }
    }
    pub fn stop(&self) -> bool {
        self.violations.len() >= 3 || self.start.elapsed() > self.budget
    }
    /// runs cases `f(seed, i)` for i below quick (or thorough) many
    pub fn random(&mut self, name: &str, f: CaseFn, quick: u64, thorough: u64) {
        let n = if self.thorough { thorough } else { quick };
        let seed = self.seed;
        for i in 0..n {
            if self.stop() {
                break;
            }
            self.case(name, f, &[seed, i]);
        }
    }
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h | 1
}
