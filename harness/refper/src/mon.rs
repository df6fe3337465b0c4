//! Monitors: counting allocator, panic capture, CPU-time watchdog, coverage, reports.
use crate::json::quote;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicI64 = AtomicI64::new(i64::MAX);
static BUSY: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

static OFF: AtomicBool = AtomicBool::new(false);

/// Allocations of the harness itself, while it converts what the codec returned.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    OFF.store(true, Relaxed);
    let r = f();
    OFF.store(false, Relaxed);
    r
}

fn note(n: i64) {
    if OFF.load(Relaxed) {
        LIVE.fetch_add(n, Relaxed);
        return;
    }
    let now = LIVE.fetch_add(n, Relaxed) + n;
    TOTAL.fetch_add(n as u64, Relaxed);
    PEAK.fetch_max(now, Relaxed);
    if now > CAP.load(Relaxed) && !BUSY.swap(true, SeqCst) {
        // Over the cap the process would be killed; say which case it was and stop.
        CAP.store(i64::MAX, SeqCst);
        die("memory", "the case needs more memory than the cap of the harness");
    }
}

pub fn mem_reset() -> i64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    TOTAL.store(0, Relaxed);
    l
}
pub fn mem_peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn mem_total() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn mem_cap(bytes: i64) {
    CAP.store(bytes, SeqCst)
}

// ---- current case, for reports from outside the normal flow -------------------------------------

/// Where reports go while the standard output is diverted.
pub static OUT_FD: AtomicI32 = AtomicI32::new(1);
static CASE_NO: AtomicUsize = AtomicUsize::new(0);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);
static CASE: Mutex<(String, Vec<u8>)> = Mutex::new((String::new(), Vec::new()));

pub fn begin_case(name: &str, bytes: &[u8]) {
    {
        let mut g = CASE.lock().unwrap();
        g.0.clear();
        g.0.push_str(name);
        g.1.clear();
        g.1.extend_from_slice(&bytes[..bytes.len().min(1 << 20)]);
    }
    CASE_CPU.store(cpu_ms(), SeqCst);
    CASE_NO.fetch_add(1, SeqCst);
}

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

pub fn cpu_ms() -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    if cfg!(miri) {
        return 0;
    }
    unsafe {
        clock_gettime(2, &mut t);
    }
    (t.s as u64) * 1000 + (t.n as u64) / 1_000_000
}

fn die(kind: &str, msg: &str) -> ! {
    let (name, bytes) = match CASE.try_lock() {
        Ok(g) => (g.0.clone(), g.1.clone()),
        Err(_) => ("unknown".into(), vec![]),
    };
    let line = format!(
        "{{\"violation\":{{\"kind\":{},\"msg\":{},\"where\":{},\"hex\":{}}}}}\n",
        quote(kind),
        quote(msg),
        quote(&name),
        quote(&hex(&bytes))
    );
    let fd = OUT_FD.load(SeqCst);
    if fd != 1 {
        let all = line + "{\"summary\":{\"aborted\":true}}\n";
        unsafe {
            write(fd, all.as_ptr() as *const std::ffi::c_void, all.len());
            _exit(0)
        }
    }
    let _ = std::io::stdout().write_all(line.as_bytes());
    let _ = std::io::stdout().write_all(b"{\"summary\":{\"aborted\":true}}\n");
    let _ = std::io::stdout().flush();
    unsafe { _exit(0) }
}

/// A case that burns more than `limit_ms` of this process's CPU time without finishing is a hang.
pub fn watchdog(limit_ms: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let n = CASE_NO.load(SeqCst);
            if n == last && n != 0 {
                let used = cpu_ms().saturating_sub(CASE_CPU.load(SeqCst));
                if used > limit_ms && CASE_NO.load(SeqCst) == n {
                    die("hang", &format!("no result after {} ms of CPU time", used));
                }
            }
            last = n;
        }
    });
}

// ---- panics ---------------------------------------------------------------------------------------

thread_local! {
    static QUIET: Cell<bool> = Cell::new(false);
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            LAST.with(|l| *l.borrow_mut() = i.to_string());
        } else {
            old(i)
        }
    }));
}

/// Runs `f`; a panic in it becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}

// ---- coverage and violations ----------------------------------------------------------------------

#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String, String)>, // kind, message, replay json
}

impl Cov {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut t = s();
            if t.len() > 600 {
                let mut e = 600;
                while !t.is_char_boundary(e) {
                    e -= 1
                }
                t.truncate(e)
            }
            self.samples.push(t)
        }
    }
    pub fn violate(&mut self, kind: &str, msg: String, replay: String) {
        let line = format!(
            "{{\"violation\":{{\"kind\":{},\"msg\":{},\"replay\":{}}}}}",
            quote(kind),
            quote(&msg),
            quote(&replay)
        );
        println!("{}", line);
        self.violations.push((kind.into(), msg, replay));
    }
    pub fn finish(&self, hashes: Option<&str>) {
        if let Some(p) = hashes {
            let mut b = Vec::with_capacity(self.distinct.len() * 8);
            for h in &self.distinct {
                b.extend_from_slice(&h.to_le_bytes())
            }
            std::fs::write(p, b).expect("harness: hash file");
        }
        let counts: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect();
        let samples: Vec<String> = self.samples.iter().map(|s| quote(s)).collect();
        println!(
            "{{\"summary\":{{\"evaluations\":{},\"distinct\":{},\"counts\":{{{}}},\"samples\":[{}]}}}}",
            self.evaluations,
            self.distinct.len(),
            counts.join(","),
            samples.join(",")
        );
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x))
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
