//! Running cases: counting, catching panics and hangs, recording the failing inputs.

use crate::fg::Rng;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Failure {
    pub case: u64,
    pub label: String,
    pub ops: String,
    pub input: Vec<u8>,
    pub what: String,
    pub known: Option<&'static str>,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub only: Option<u64>,
    pub trace: Option<String>,
    pub n: u64,
    pub facts: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub labels: Vec<(String, u64)>,
    pub start: Instant,
    pub budget: Duration,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(u64, String, String, Vec<u8>)>> = Mutex::new(None);

pub const MAX_CASE_SECS: u64 = 20;

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn failure_json(f: &Failure) -> String {
    format!(
        "{{\"case\":{},\"label\":{},\"ops\":{},\"what\":{},\"known\":{},\"input_len\":{},\"input_hex\":{}}}",
        f.case,
        jstr(&f.label),
        jstr(&f.ops),
        jstr(&f.what),
        f.known.map_or("null".into(), jstr),
        f.input.len(),
        jstr(&hex(&f.input))
    )
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, only: Option<u64>, trace: Option<String>, budget: Duration) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let s = format!("{info}").replace('\n', " ");
            PANIC.with(|p| *p.borrow_mut() = s);
        }));
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = CASE_START.load(Ordering::SeqCst);
            if t != 0 && now_ms().saturating_sub(t) > MAX_CASE_SECS * 1000 {
                if let Some((case, label, ops, input)) = CURRENT.lock().unwrap().take() {
                    let f = Failure {
                        case,
                        label,
                        ops,
                        input,
                        what: format!("does not finish within {MAX_CASE_SECS} s"),
                        known: None,
                    };
                    println!("FAILURE {}", failure_json(&f));
                }
                std::process::exit(1);
            }
        });
        Ctx {
            rng: Rng::new(seed),
            thorough,
            only,
            trace,
            n: 0,
            facts: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failures: vec![],
            labels: vec![],
            start: Instant::now(),
            budget,
        }
    }

    /// A number of iterations, more of them in the thorough tier
    pub fn iters(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 16
        } else {
            quick * 4
        }
    }

    /// False when there is no point in going on
    pub fn more(&self) -> bool {
        self.failures.iter().filter(|f| f.known.is_none()).count() < 3 && self.start.elapsed() < self.budget
    }

    /// Runs a case: `f` gives the number of facts checked, or what is wrong
    pub fn case(&mut self, label: &str, input: &[u8], ops: impl Into<String>, f: impl FnOnce() -> Result<usize, String>) {
        self.run(None, label, input, ops.into(), f)
    }

    /// As `case`, for an input listed as a known finding
    pub fn known(
        &mut self,
        key: &'static str,
        label: &str,
        input: &[u8],
        ops: impl Into<String>,
        f: impl FnOnce() -> Result<usize, String>,
    ) {
        self.run(Some(key), label, input, ops.into(), f)
    }

    fn run(
        &mut self,
        known: Option<&'static str>,
        label: &str,
        input: &[u8],
        ops: String,
        f: impl FnOnce() -> Result<usize, String>,
    ) {
        let case = self.n;
        self.n += 1;
        if self.only.is_some_and(|o| o != case) || !self.more() {
            return;
        }
        if let Some(t) = &self.trace {
            let f = Failure { case, label: label.into(), ops: ops.clone(), input: input.to_vec(), what: "the process died".into(), known };
            let _ = std::fs::write(t, failure_json(&f));
        }
        *CURRENT.lock().unwrap() = Some((case, label.to_string(), ops.clone(), input.to_vec()));
        CASE_START.store(now_ms(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(0, Ordering::SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
        };
        match self.labels.iter_mut().find(|l| l.0 == label) {
            Some(l) => l.1 += 1,
            None => self.labels.push((label.to_string(), 1)),
        }
        match r {
            Ok(facts) => {
                self.facts += facts as u64;
                if facts > 0 {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (label, input, &ops).hash(&mut h);
                    if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || self.n % 997 == 0) && self.samples.len() < 6 {
                        let t: String = String::from_utf8_lossy(&input[..input.len().min(96)])
                            .chars()
                            .map(|c| if c.is_control() { '.' } else { c })
                            .collect();
                        let o: String = ops.chars().take(160).collect();
                        self.samples.push(format!("{label}: {} input bytes starting {t:?}; {o}; {facts} facts checked", input.len()));
                    }
                }
            }
            Err(what) => self.failures.push(Failure {
                case,
                label: label.to_string(),
                ops,
                input: input.to_vec(),
                what,
                known,
            }),
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) {
            return Err(format!($($t)*));
        }
    };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            let mut a = format!("{a:?}");
            let mut b = format!("{b:?}");
            a = a.chars().take(600).collect();
            b = b.chars().take(600).collect();
            return Err(format!("{}: expected {}, got {}", format!($($t)*), b, a));
        }
    }};
}
