//! Stateless exhaustive explorer: depth-first enumeration of every choice sequence of a
//! kernel, spread over threads, with replayable trails.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::toy;

pub struct Viol(pub String);
pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Viol(format!($($a)*))) };
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !($c) { $crate::fail!($($a)*); } };
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (x, y) = (&$a, &$b);
        if x != y {
            $crate::fail!("{}: got {:?}, expected {:?}", format!($($m)*), $crate::engine::Sh(x), $crate::engine::Sh(y));
        }
    }};
}
/// shortened Debug
pub struct Sh<'a, T: ?Sized>(pub &'a T);
impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for Sh<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = format!("{:?}", self.0);
        if s.len() > 600 {
            write!(f, "{}..({} chars)", &s[..600], s.len())
        } else {
            f.write_str(&s)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Pt {
    label: &'static str,
    n: u32,
    c: u32,
}

pub struct Ctx {
    pub tier: Tier,
    prefix: Vec<Pt>,
    /// replay from a file: only numbers are known
    nums: Option<Vec<u32>>,
    trail: Vec<Pt>,
    ops: u64,
    states: HashSet<u64>,
    pub notes: Vec<String>,
    want_notes: bool,
    mid: bool,
    worker: usize,
    outcomes: BTreeMap<String, u64>,
    diverged: Option<String>,
}

impl Ctx {
    fn new(tier: Tier) -> Self {
        Ctx {
            tier,
            prefix: vec![],
            nums: None,
            trail: vec![],
            ops: 0,
            states: HashSet::new(),
            notes: vec![],
            want_notes: false,
            mid: false,
            worker: BEATS.len() - 1,
            outcomes: BTreeMap::new(),
            diverged: None,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn tiered<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// Environment choice: every value in 0..n is explored.
    pub fn choose(&mut self, label: &'static str, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice {label}");
        let i = self.trail.len();
        let c = if let Some(v) = &self.nums {
            *v.get(i).unwrap_or(&if self.mid { n as u32 / 2 } else { 0 })
        } else if i < self.prefix.len() {
            let p = self.prefix[i];
            if p.label != label || p.n != n as u32 {
                self.diverged = Some(format!("replay divergence at choice {i}: {p:?} vs {label}/{n}"));
            }
            p.c
        } else {
            0
        };
        assert!((c as usize) < n, "harness: replayed choice out of range at {i} ({label})");
        self.trail.push(Pt { label, n: n as u32, c });
        c as usize
    }
    pub fn pick<'a, T>(&mut self, label: &'static str, xs: &'a [T]) -> &'a T {
        let i = self.choose(label, xs.len());
        &xs[i]
    }
    pub fn flag(&mut self, label: &'static str) -> bool {
        self.choose(label, 2) == 1
    }
    /// number of calls into the implementation
    pub fn op(&mut self, n: u64) {
        self.ops += n;
        let b = &BEATS[self.worker];
        if b.load(SeqCst) != 0 {
            b.store(seconds(), SeqCst);
        }
    }
    /// raises the memory limit of this execution for an exploration that keeps its own state set
    pub fn memory(&mut self, gb: i64) {
        MEM_MAX.with(|m| m.set(gb << 30));
    }
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.states.insert(h.finish());
    }
    /// returns true if the state was new in this execution's worker
    pub fn outcome(&mut self, s: &str) {
        if let Some(v) = self.outcomes.get_mut(s) {
            *v += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            self.notes.push(f());
        }
    }
}

/// time of the last sign of life of each worker, 0 = idle
static BEATS: [AtomicU64; 65] = [const { AtomicU64::new(0) }; 65];
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn seconds() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_secs() + 1
}

pub type KFn = fn(&mut Ctx) -> Res;
#[derive(Clone)]
pub struct Kernel {
    pub name: &'static str,
    pub f: KFn,
    /// what one execution of the kernel enumerates
    pub what: &'static str,
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub ops: u64,
    pub states: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub secs: f64,
    pub viol: Option<Found>,
    pub max_depth: usize,
}
#[derive(Clone)]
pub struct Found {
    pub msg: String,
    pub choices: Vec<(String, u32, u32)>,
    pub reproduced: bool,
    pub trace: Vec<String>,
}

/// bytes one execution may have allocated at any time
pub const MEM_LIMIT: i64 = 3 << 30;
pub struct Limited;
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static MEM_MAX: std::cell::Cell<i64> = const { std::cell::Cell::new(MEM_LIMIT) };
    static MEM_ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static NOW: RefCell<(&'static str, Vec<Pt>)> = const { RefCell::new(("", Vec::new())) };
}
unsafe impl std::alloc::GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let live = LIVE.with(|c| {
            c.set(c.get().saturating_add(l.size() as i64));
            c.get()
        });
        if live > MEM_MAX.with(|m| m.get()) && MEM_ON.with(|o| o.replace(false)) {
            let (k, p) = NOW.with(|n| n.borrow().clone());
            crate::give_up(k, &format!("one execution allocates {live} bytes (last request {})", l.size()), &p.iter().map(|p| (p.label.to_string(), p.n, p.c)).collect::<Vec<_>>());
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.with(|c| c.set(c.get().saturating_sub(l.size() as i64)));
        std::alloc::System.dealloc(p, l)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {m} at {l}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic: ?".into())
    })
}

fn run_one(k: &Kernel, ctx: &mut Ctx) -> Res {
    toy::oracle_reset();
    match guarded(|| (k.f)(ctx)) {
        Ok(r) => r,
        Err(m) => Err(Viol(m)),
    }
}

struct Shared {
    queue: Mutex<Vec<Vec<Pt>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    done: AtomicBool,
    found: Mutex<Option<(Vec<Pt>, String)>>,
    err: Mutex<Option<String>>,
    execs: AtomicU64,
    heart: Vec<Mutex<Vec<Pt>>>,
}

pub const HANG_SECS: u64 = 150;

pub fn explore(k: &Kernel, tier: Tier, threads: usize) -> Result<Report, String> {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        done: AtomicBool::new(false),
        found: Mutex::new(None),
        err: Mutex::new(None),
        execs: AtomicU64::new(0),
        heart: (0..threads).map(|_| Mutex::new(vec![])).collect(),
    };
    let mut rep = Report::default();
    let outs: Vec<Ctx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(w, threads, k, tier, sh))
                    .unwrap()
            })
            .collect();
        // watchdog
        let shr = &sh;
        let dog = s.spawn(move || loop {
            if shr.done.load(SeqCst) {
                return;
            }
            std::thread::sleep(Duration::from_millis(5));
            let now = seconds();
            for (w, p) in shr.heart.iter().enumerate() {
                let b = BEATS[w].load(SeqCst);
                if b != 0 && now > b + HANG_SECS {
                    let pre = p.lock().unwrap().clone();
                    // the worker cannot be interrupted: report and leave the process
                    crate::give_up(k.name, &format!("no call returned for {HANG_SECS} s"), &pre.iter().map(|p| (p.label.to_string(), p.n, p.c)).collect::<Vec<_>>());
                }
            }
        });
        let r = hs.into_iter().map(|h| h.join().expect("worker died")).collect();
        sh.done.store(true, SeqCst);
        dog.join().unwrap();
        r
    });
    if let Some(e) = sh.err.lock().unwrap().take() {
        return Err(e);
    }
    let mut all: HashSet<u64> = HashSet::new();
    for c in outs {
        rep.ops += c.ops;
        rep.max_depth = rep.max_depth.max(c.trail.len());
        if all.is_empty() {
            all = c.states;
        } else {
            all.extend(c.states);
        }
        for (o, n) in c.outcomes {
            *rep.outcomes.entry(o).or_default() += n;
        }
    }
    rep.states = all.len() as u64;
    rep.executions = sh.execs.load(SeqCst);
    let f = sh.found.lock().unwrap().take();
    if let Some((trail, msg)) = f {
        let nums: Vec<u32> = trail.iter().map(|p| p.c).collect();
        let (r, tr) = replay(k, tier, &nums);
        rep.viol = Some(Found {
            msg,
            choices: trail.iter().map(|p| (p.label.to_string(), p.n, p.c)).collect(),
            reproduced: r.is_err(),
            trace: tr,
        });
    } else {
        // two recorded samples, replayed twice with identical observations
        let (first, second) = std::thread::scope(|s| {
            let run = |mid: bool| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || sample(k, tier, mid)).unwrap();
            let h = [run(false), run(true), run(false), run(true)].map(|h| h.join().expect("sampler died"));
            let [a, b, c, d] = h;
            ([a, b], [c, d])
        });
        for ((a, ta), (b, tb)) in first.into_iter().zip(second) {
            if a != b || ta != tb {
                rep.viol = Some(Found {
                    msg: format!("the same operations on the same data and randomness gave different observations: {} versus {}", ta.join("; "), tb.join("; ")),
                    choices: vec![],
                    reproduced: false,
                    trace: ta,
                });
                break;
            }
            rep.samples.push(format!("{} [{}] {}", k.name, a, ta.join("; ")));
        }
    }
    rep.secs = t0.elapsed().as_secs_f64();
    Ok(rep)
}

/// Where each worker is, so that the parent process can find the execution that killed us.
pub static TRAILS: Mutex<Option<&'static std::fs::File>> = Mutex::new(None);
pub const TRAIL_SLOT: usize = 1024;
fn record_trail(w: usize, p: &[Pt]) {
    use std::os::unix::fs::FileExt;
    thread_local! {
        static F: Option<&'static std::fs::File> = *TRAILS.lock().unwrap();
    }
    F.with(|f| {
        if let Some(f) = f {
            let mut b = Vec::with_capacity(4 + 4 * p.len());
            b.extend((p.len() as u32 + 1).to_le_bytes());
            for x in p {
                b.extend(x.c.to_le_bytes());
            }
            b.truncate(TRAIL_SLOT);
            let _ = f.write_all_at(&b, (w * TRAIL_SLOT) as u64);
        }
    });
}

fn worker(w: usize, threads: usize, k: &Kernel, tier: Tier, sh: &Shared) -> Ctx {
    let mut ctx = Ctx::new(tier);
    ctx.worker = w;
    let mut local: Vec<Vec<Pt>> = vec![];
    loop {
        if sh.stop.load(SeqCst) {
            break;
        }
        let task = match local.pop() {
            Some(t) => t,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, SeqCst);
                let t = loop {
                    if sh.stop.load(SeqCst) {
                        break None;
                    }
                    if let Some(t) = q.pop() {
                        break Some(t);
                    }
                    if sh.idle.load(SeqCst) == threads {
                        sh.stop.store(true, SeqCst);
                        sh.cv.notify_all();
                        break None;
                    }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                };
                match t {
                    Some(t) => {
                        sh.idle.fetch_sub(1, SeqCst);
                        t
                    }
                    None => break,
                }
            }
        };
        let plen = task.len();
        *sh.heart[w].lock().unwrap() = task.clone();
        BEATS[w].store(seconds(), SeqCst);
        ctx.prefix = task;
        ctx.trail.clear();
        NOW.with(|n| *n.borrow_mut() = (k.name, ctx.prefix.clone()));
        LIVE.with(|c| c.set(0));
        MEM_MAX.with(|m| m.set(MEM_LIMIT));
        MEM_ON.with(|o| o.set(true));
        record_trail(w, &ctx.prefix);
        let r = run_one(k, &mut ctx);
        MEM_ON.with(|o| o.set(false));
        BEATS[w].store(0, SeqCst);
        sh.execs.fetch_add(1, SeqCst);
        if let Some(d) = ctx.diverged.take() {
            if r.is_ok() {
                // the kernels are deterministic, so the implementation is not
                *sh.found.lock().unwrap() = Some((ctx.prefix.clone(), format!("repeating the same operations led to a different behaviour: {d}")));
                sh.stop.store(true, SeqCst);
                sh.cv.notify_all();
                break;
            }
        }
        if let Err(Viol(m)) = r {
            let mut f = sh.found.lock().unwrap();
            let better = match &*f {
                None => true,
                Some((t, _)) => ctx.trail.len() < t.len(),
            };
            if better {
                *f = Some((ctx.trail.clone(), m));
            }
            sh.stop.store(true, SeqCst);
            sh.cv.notify_all();
            break;
        }
        for i in (plen..ctx.trail.len()).rev() {
            for alt in (1..ctx.trail[i].n).rev() {
                let mut p = ctx.trail[..=i].to_vec();
                p[i].c = alt;
                local.push(p);
            }
        }
        // reverse so that deeper alternatives are explored first
        let fresh = local.len();
        if fresh > 1 && sh.idle.load(SeqCst) > 0 {
            let give: Vec<_> = local.drain(..fresh / 2).collect();
            let mut q = sh.queue.lock().unwrap();
            q.extend(give);
            drop(q);
            sh.cv.notify_all();
        }
    }
    ctx
}

/// Replays one choice sequence; returns the verdict and the operation trace.
pub fn replay(k: &Kernel, tier: Tier, nums: &[u32]) -> (Result<String, String>, Vec<String>) {
    let mut ctx = Ctx::new(tier);
    ctx.nums = Some(nums.to_vec());
    ctx.want_notes = true;
    let r = run_one(k, &mut ctx);
    let ch: Vec<String> = ctx.trail.iter().map(|p| format!("{}={}/{}", p.label, p.c, p.n)).collect();
    (
        match r {
            Ok(()) => Ok(ch.join(" ")),
            Err(Viol(m)) => Err(m),
        },
        ctx.notes,
    )
}

/// A sample execution: all-zero choices, or the middle alternative at every choice point.
fn sample(k: &Kernel, tier: Tier, mid: bool) -> (String, Vec<String>) {
    let mut ctx = Ctx::new(tier);
    ctx.nums = Some(vec![]);
    ctx.mid = mid;
    ctx.want_notes = true;
    let r = run_one(k, &mut ctx);
    let ch: Vec<String> = ctx.trail.iter().map(|p| format!("{}={}/{}", p.label, p.c, p.n)).collect();
    match r {
        Ok(()) => (ch.join(" "), ctx.notes),
        Err(Viol(m)) => (format!("VIOLATION {m}"), ctx.notes),
    }
}
