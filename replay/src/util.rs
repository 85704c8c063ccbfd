//! Random numbers, byte builders, the case runner and its watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static BIG: AtomicUsize = AtomicUsize::new(0);
const HARD: usize = 3 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            return std::ptr::null_mut();
        }
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        BIG.fetch_max(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            return std::ptr::null_mut();
        }
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        BIG.fetch_max(l.size(), Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n > l.size() {
                let c = CUR.fetch_add(n - l.size(), Relaxed) + n - l.size();
                PEAK.fetch_max(c, Relaxed);
                BIG.fetch_max(n, Relaxed);
            } else {
                CUR.fetch_sub(l.size() - n, Relaxed);
            }
        }
        q
    }
}
/// Bytes the closure allocated above the level it started from, at its peak.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.u64() as u16
    }
    pub fn u32(&mut self) -> u32 {
        // mixes small, boundary and arbitrary values
        match self.below(6) {
            0 => self.below(10) as u32,
            1 => u32::MAX - self.below(3) as u32,
            2 => 1u32 << self.below(32),
            3 => self.below(70000) as u32,
            _ => self.u64() as u32,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn ascii(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| b'a' + (self.u8() % 26)).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub trait Put {
    fn b16(&mut self, v: u16) -> &mut Self;
    fn b32(&mut self, v: u32) -> &mut Self;
    fn b64(&mut self, v: u64) -> &mut Self;
    fn raw(&mut self, v: &[u8]) -> &mut Self;
    fn e16(&mut self, v: u16, be: bool) -> &mut Self;
    fn e32(&mut self, v: u32, be: bool) -> &mut Self;
}
impl Put for Vec<u8> {
    fn b16(&mut self, v: u16) -> &mut Self {
        self.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn b32(&mut self, v: u32) -> &mut Self {
        self.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn b64(&mut self, v: u64) -> &mut Self {
        self.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn raw(&mut self, v: &[u8]) -> &mut Self {
        self.extend_from_slice(v);
        self
    }
    fn e16(&mut self, v: u16, be: bool) -> &mut Self {
        if be {
            self.extend_from_slice(&v.to_be_bytes())
        } else {
            self.extend_from_slice(&v.to_le_bytes())
        }
        self
    }
    fn e32(&mut self, v: u32, be: bool) -> &mut Self {
        if be {
            self.extend_from_slice(&v.to_be_bytes())
        } else {
            self.extend_from_slice(&v.to_le_bytes())
        }
        self
    }
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    }
}
/// Where two long texts first differ, with a little context.
pub fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let s = i.saturating_sub(60);
    let f = |v: &[char]| v.iter().skip(s).take(260).collect::<String>();
    format!("first difference at {i}\n  expected: {}\n  actual:   {}", f(&x), f(&y))
}

pub struct Violation {
    pub case: String,
    pub key: String,
    pub detail: String,
    pub input: Vec<u8>,
}
#[derive(Default)]
pub struct Ctx {
    pub property: String,
    pub scale: usize,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub violations: Vec<Violation>,
    pub evals: usize,
    pub distinct: HashSet<u64>,
    pub tallies: BTreeMap<String, usize>,
    pub samples: Vec<String>,
    pub verbose: bool,
    pub deadline: Option<Instant>,
}
struct Running {
    label: String,
    since: Instant,
}
static RUNNING: Mutex<Option<Running>> = Mutex::new(None);
static INPUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
pub static STATUS: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// The input being looked at, so that a hang or crash can be reported with it.
pub fn note_input(d: &[u8]) {
    let mut g = INPUT.lock().unwrap();
    g.clear();
    g.extend_from_slice(d);
}
pub fn last_input() -> Vec<u8> {
    INPUT.lock().unwrap().clone()
}

fn hash(d: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in d {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Case<'a> {
    pub ctx: &'a mut Ctx,
    pub r: Rng,
    pub label: String,
    pub input: Vec<u8>,
}
impl Case<'_> {
    pub fn input(&mut self, d: &[u8]) {
        self.input = d.to_vec();
        note_input(d);
        self.ctx.distinct.insert(hash(d));
        if self.ctx.samples.len() < 6 && !d.is_empty() && !self.ctx.samples.iter().any(|s| s.split(':').next() == self.label.split(':').next()) {
            self.ctx.samples.push(format!("{}: {} bytes: {}{}", self.label, d.len(), hex(&d[..d.len().min(120)]), if d.len() > 120 { ".." } else { "" }));
        }
    }
    pub fn fail(&mut self, key: &str, detail: String) {
        if self.ctx.verbose {
            eprintln!("FAIL {} {}\n{}", self.label, key, detail);
        }
        let (case, input) = (self.label.clone(), self.input.clone());
        self.ctx.violations.push(Violation { case, key: key.into(), detail, input });
    }
    pub fn same(&mut self, key: &str, what: &str, expected: &str, actual: &str) -> bool {
        if expected != actual {
            self.fail(key, format!("{what}: {}", diff(expected, actual)));
            false
        } else {
            true
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(key, d);
        }
        ok
    }
    pub fn tally(&mut self, k: &str) {
        *self.ctx.tallies.entry(k.to_string()).or_insert(0) += 1;
    }
}

impl Ctx {
    /// Run `n * scale / 100` cases of a suite, each from its own seed.
    pub fn suite(&mut self, name: &str, n: usize, mut f: impl FnMut(&mut Case)) {
        let n = if n <= 1 { n } else { (n * self.scale / 100).max(1) };
        for i in 0..n as u64 {
            let case_seed = if n == 1 { 0 } else { self.seed * 1_000_000 + i };
            if let Some((s, c)) = &self.only {
                if s != name || *c != case_seed {
                    continue;
                }
            }
            if self.violations.len() >= 8 {
                return;
            }
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    *self.tallies.entry("suites cut short by the time limit".into()).or_insert(0) += 1;
                    return;
                }
            }
            let label = format!("{name}:{case_seed}");
            *RUNNING.lock().unwrap() = Some(Running { label: label.clone(), since: Instant::now() });
            if let Some(f) = STATUS.lock().unwrap().as_ref() {
                use std::os::unix::fs::FileExt;
                let _ = f.write_at(format!("{label:<120}\n").as_bytes(), 0);
            }
            self.evals += 1;
            let mut sh = 0xcbf29ce484222325u64;
            for b in name.bytes() {
                sh = (sh ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let mut case = Case { r: Rng::new(case_seed ^ sh), label, input: vec![], ctx: self };
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)));
            if let Err(e) = res {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let at = PANIC_AT.lock().unwrap().clone();
                if case.input.is_empty() {
                    case.input = last_input();
                }
                case.fail("panic", format!("panicked at {at}: {msg}"));
            }
            *RUNNING.lock().unwrap() = None;
        }
    }
}

pub static PANIC_AT: Mutex<String> = Mutex::new(String::new());

pub fn start_watchdog(limit: Duration, out: String, property: String) {
    std::panic::set_hook(Box::new(|i| {
        *PANIC_AT.lock().unwrap() = i.location().map(|l| l.to_string()).unwrap_or_default();
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = RUNNING.lock().unwrap();
        if let Some(r) = g.as_ref() {
            if r.since.elapsed() > limit {
                let v = Violation {
                    case: r.label.clone(),
                    key: "hang".into(),
                    detail: format!("no result after {:?}", limit),
                    input: last_input(),
                };
                write_report(&out, &property, &[v], 0, 0, &BTreeMap::new(), &[]);
                std::process::exit(0);
            }
        }
    });
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn write_report(
    out: &str,
    property: &str,
    v: &[Violation],
    evals: usize,
    distinct: usize,
    tallies: &BTreeMap<String, usize>,
    samples: &[String],
) {
    let vs: Vec<String> = v
        .iter()
        .map(|x| {
            format!(
                "{{\"case\":{},\"key\":{},\"detail\":{},\"input_len\":{},\"input_hex\":{}}}",
                js(&x.case),
                js(&x.key),
                js(&short(&x.detail, 4000)),
                x.input.len(),
                js(&hex(&x.input[..x.input.len().min(200_000)]))
            )
        })
        .collect();
    let ts: Vec<String> = tallies.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let s = format!(
        "{{\"property\":{},\"evaluations\":{evals},\"distinct\":{distinct},\"tallies\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}\n",
        js(property),
        ts.join(","),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        vs.join(",")
    );
    std::fs::write(out, s).expect("write report");
}
