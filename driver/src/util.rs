//! Deterministic randomness, f64 plane geometry for *building inputs*, record
//! output and isolation of the code under test.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub type P = (f64, f64);
pub fn add(a: P, b: P) -> P { (a.0 + b.0, a.1 + b.1) }
pub fn sub(a: P, b: P) -> P { (a.0 - b.0, a.1 - b.1) }
pub fn dot(a: P, b: P) -> f64 { a.0 * b.0 + a.1 * b.1 }
pub fn cross(a: P, b: P) -> f64 { a.0 * b.1 - a.1 * b.0 }
pub fn len(a: P) -> f64 { dot(a, a).sqrt() }

/// Convex hull, counter-clockwise.
pub fn hull(mut p: Vec<P>) -> Vec<P> {
    p.sort_by(|a, b| a.partial_cmp(b).unwrap());
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let mut h: Vec<P> = vec![];
    for pass in 0..2 {
        let st = h.len();
        let it: Vec<P> = if pass == 0 { p.clone() } else { p.iter().rev().cloned().collect() };
        for q in it {
            while h.len() >= st + 2 && cross(sub(h[h.len() - 1], h[h.len() - 2]), sub(q, h[h.len() - 2])) <= 0.0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    /// inclusive
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f() }
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 { (self.range(lo.ln(), hi.ln())).exp() }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len() as u64) as usize; &s[i] }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub struct Out {
    w: BufWriter<File>,
    pub lines: u64,
    /// set when a single session is replayed: its description is wanted
    desc: Option<File>,
}
impl Out {
    pub fn new(path: &str, describe: bool) -> Self {
        let desc = describe.then(|| File::create(format!("{path}.desc")).expect("create output"));
        Out { w: BufWriter::new(File::create(path).expect("create output")), lines: 0, desc }
    }
    /// start of a session; `desc` is everything needed to understand it
    pub fn begin(&mut self, id: u64, desc: &str) {
        note(desc.to_string());
        if let Some(f) = &mut self.desc { let _ = writeln!(f, "{desc}"); }
        self.put(serde_json::json!({"e": "begin", "id": id}));
    }
    pub fn put(&mut self, v: serde_json::Value) {
        let s = v.to_string();
        self.w.write_all(s.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn finish(&mut self) { self.w.flush().unwrap(); }
}

// ---------------------------------------------------------------- isolation

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static LIMIT_MS: AtomicU64 = AtomicU64::new(10_000);
pub static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Remember what is being run, for the watchdog.
pub fn note(text: String) {
    *CURRENT.lock().unwrap() = text;
}

/// threads inside code under test
static INSIDE: AtomicU64 = AtomicU64::new(0);
thread_local! { static TIMES: std::cell::RefCell<Option<Vec<(u64, u64)>>> = const { std::cell::RefCell::new(None) }; }
/// From now on this thread's guarded calls are timed (or no longer); the times until now, in
/// units that only order events of all threads.
pub fn timed(on: bool) -> Vec<(u64, u64)> {
    TIMES.with(|t| t.replace(on.then(Vec::new))).unwrap_or_default()
}

/// Runs code under test; a panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    INSIDE.fetch_add(1, Ordering::SeqCst);
    let t0 = BEAT.fetch_add(1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    let t1 = BEAT.fetch_add(1, Ordering::SeqCst);
    INSIDE.fetch_sub(1, Ordering::SeqCst);
    TIMES.with(|t| if let Some(t) = t.borrow_mut().as_mut() { t.push((t0, t1)) });
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".into() }
    })
}

/// A guarded call that never returns would hang the run: after `LIMIT_MS`
/// without progress the process ends with code 97 (a hang of the code under
/// test, reported by the runner together with the case that was running).
pub fn start_watchdog(out: &str) {
    let hang = format!("{out}.hang");
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut idle = 0u64;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last && INSIDE.load(Ordering::SeqCst) > 0 { idle += 200; } else { idle = 0; last = now; }
            if idle >= LIMIT_MS.load(Ordering::Relaxed) {
                let _ = std::fs::write(&hang, CURRENT.lock().unwrap().as_str());
                std::process::exit(97);
            }
        }
    });
}
