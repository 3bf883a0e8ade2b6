//! Shared driver of the bounded, executable side of the contracts: it runs the *real* code
//! (crate `louis-rs`, path dependency on /repo) against oracles written from the property text.
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod e2e;
pub mod fuzz;
pub mod hyph;
pub mod indic;
pub mod model;
pub mod passes;
pub mod selection;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn string(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

pub struct Failure {
    pub key: String,
    pub input: String,
    pub detail: String,
}

struct Current {
    input: String,
    started: Instant,
}

pub struct Run {
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    start: Instant,
    budget: Duration,
    out: String,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    failures: Vec<Failure>,
    fail_keys: HashSet<String>,
    rule: String,
    bound: String,
    journal: Option<std::fs::File>,
    current: Arc<Mutex<Option<Current>>>,
    phase: Instant,
    phase_len: Duration,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_out(
    path: &str,
    evals: u64,
    distinct: usize,
    samples: &[String],
    failures: &[(String, String, String)],
    rule: &str,
    bound: &str,
) {
    let mut s = String::from("{");
    s.push_str(&format!("\"evaluations\":{evals},\"distinct_nontrivial\":{distinct},\"rule\":{},\"bound\":{},", esc(rule), esc(bound)));
    s.push_str("\"samples\":[");
    s.push_str(&samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"failures\":[");
    s.push_str(
        &failures
            .iter()
            .map(|(k, i, d)| format!("{{\"key\":{},\"input\":{},\"detail\":{}}}", esc(k), esc(i), esc(d)))
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("]}");
    std::fs::write(path, s).unwrap();
}

impl Run {
    /// argv: <seed> <budget seconds> <tier> <out.json> [journal]
    pub fn from_args(rule: &str, bound: &str) -> Run {
        let a: Vec<String> = std::env::args().collect();
        let seed: u64 = a[1].parse().unwrap();
        let budget = Duration::from_secs_f64(a[2].parse().unwrap());
        let thorough = a[3] == "thorough";
        let out = a[4].clone();
        let journal = a.get(5).map(|p| std::fs::File::create(p).unwrap());
        std::panic::set_hook(Box::new(|_| {}));
        let current: Arc<Mutex<Option<Current>>> = Arc::new(Mutex::new(None));
        {
            let c = current.clone();
            let out = out.clone();
            let (rule, bound) = (rule.to_string(), bound.to_string());
            std::thread::spawn(move || {
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let g = c.lock().unwrap();
                    if let Some(x) = &*g
                        && x.started.elapsed() > Duration::from_secs(20)
                    {
                        write_out(
                            &out,
                            0,
                            0,
                            &[],
                            &[("hang".into(), x.input.clone(), "no answer within 20 s on a tiny input".into())],
                            &rule,
                            &bound,
                        );
                        std::process::exit(0);
                    }
                }
            });
        }
        Run {
            seed,
            thorough,
            rng: Rng::new(seed),
            start: Instant::now(),
            budget,
            out,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failures: vec![],
            fail_keys: HashSet::new(),
            rule: rule.into(),
            bound: bound.into(),
            journal,
            current,
            phase: Instant::now(),
            phase_len: budget,
        }
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget && self.failures.len() < 8
    }
    /// start a phase that may use the given share of the whole budget
    pub fn phase(&mut self, share: f64) {
        self.phase = Instant::now();
        self.phase_len = self.budget.mul_f64(share);
    }
    pub fn more(&self) -> bool {
        self.time_left() && self.phase.elapsed() < self.phase_len
    }
    pub fn fail(&mut self, key: &str, input: &str, detail: &str) {
        // one failure per key is enough
        if self.fail_keys.insert(key.to_string()) {
            self.failures.push(Failure { key: key.into(), input: input.into(), detail: detail.into() });
        }
    }
    /// `f` returns Ok(nontrivial) when the property held, Err((key, detail)) when it did not.
    pub fn case(&mut self, input: &str, f: impl FnOnce() -> Result<bool, (String, String)>) -> bool {
        if let Some(j) = &mut self.journal {
            use std::io::Seek;
            let _ = j.set_len(0);
            let _ = j.rewind();
            let _ = j.write_all(input.as_bytes());
        }
        *self.current.lock().unwrap() = Some(Current { input: input.into(), started: Instant::now() });
        self.evals += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *self.current.lock().unwrap() = None;
        match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial {
                    let mut h = DefaultHasher::new();
                    input.hash(&mut h);
                    if self.distinct.insert(h.finish()) && self.samples.len() < 6 && self.distinct.len() % 97 == 1 {
                        self.samples.push(input.chars().take(400).collect());
                    }
                }
                true
            }
            Ok(Err((k, d))) => {
                self.fail(&k, input, &d);
                false
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                let short: String = m.chars().take(60).collect();
                self.fail(&format!("panic: {short}"), input, &format!("panicked: {m}"));
                false
            }
        }
    }
    pub fn finish(self) -> ! {
        let h: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(format!("{}.h", self.out), h).unwrap();
        write_out(
            &self.out,
            self.evals,
            self.distinct.len(),
            &self.samples,
            &self.failures.iter().map(|f| (f.key.clone(), f.input.clone(), f.detail.clone())).collect::<Vec<_>>(),
            &self.rule,
            &self.bound,
        );
        std::process::exit(0)
    }
}

/// enumerate all strings over `alphabet` of length <= n, calling f until it returns false
pub fn strings(alphabet: &[char], n: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
    fn go(a: &[char], n: usize, cur: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if n == 0 {
            return true;
        }
        for c in a {
            cur.push(*c);
            if !go(a, n - 1, cur, f) {
                return false;
            }
            cur.pop();
        }
        true
    }
    go(alphabet, n, &mut String::new(), f)
}

pub fn differ<T: std::fmt::Debug + PartialEq>(key: &str, got: &T, want: &T) -> Result<(), (String, String)> {
    if got == want { Ok(()) } else { Err((key.to_string(), format!("got {got:?}, expected {want:?}"))) }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !$c { return Err(($key.to_string(), format!($($a)*))); }
    };
}

/// debug output of a rule; where it shows sets, whose order means nothing, its characters in order
pub fn calm(s: &str) -> String {
    if !["({", ": {"].iter().any(|x| s.contains(x)) {
        return s.to_string();
    }
    let mut v: Vec<char> = s.chars().collect();
    v.sort();
    v.into_iter().collect()
}
