//! Case runner: fixed-work seeded generation over 8 shards, shrinking, replay files, evidence, and a
//! parent process that turns crashes of the worker into confirmed findings.
use crate::tape::Tape;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_HANG: i32 = 79;
const CPU_LIMIT_S: f64 = 40.0;
const MAX_SHARDS: usize = 64;

#[derive(Debug, Clone)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
    pub repro: String,
}
pub type Res = Result<(), Failure>;

pub fn fail(sig: &str, msg: impl Into<String>, repro: impl Into<String>) -> Failure {
    Failure { sig: sig.to_string(), msg: msg.into(), repro: repro.into() }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $repro:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::engine::fail($sig, format!($($fmt)*), $repro.to_string()));
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub sample: Option<String>,
    pub net_retry: bool,
}
impl Ctx {
    pub fn label(&mut self, l: &str) {
        if let Some(c) = self.labels.get_mut(l) {
            *c += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_default() += n;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn key<K: Hash>(&mut self, k: &K) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub net: bool,
    pub case: fn(&mut Tape, &mut Ctx) -> Res,
    pub fixed: &'static [(&'static str, fn(&mut Ctx) -> Res)],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("FIXCHECK_BT").is_ok() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Calls into the engine; a panic becomes Err("message at file:line").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| {
            p.borrow().as_ref().map(|(m, l)| format!("{} at {}", m, l)).unwrap_or("panic".into())
        })
    })
}

enum Outcome {
    Pass,
    Fail(Failure),
    Broken(String),
}

fn run_case(p: &Prop, tape: &mut Tape, ctx: &mut Ctx) -> Outcome {
    run_any(&mut |c| (p.case)(tape, c), ctx)
}

fn run_any(f: &mut dyn FnMut(&mut Ctx) -> Res, ctx: &mut Ctx) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(f)) if f.sig == "broken-oracle" => Outcome::Broken(format!("{} [{}]", f.msg, f.repro)),
        Ok(Err(f)) => Outcome::Fail(f),
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if l.starts_with("/repo/") {
                Outcome::Fail(fail("panic", format!("the engine panicked: {} at {}", m, l), ""))
            } else {
                Outcome::Broken(format!("harness panic: {} at {}", m, l))
            }
        }
    }
}

// ---------------------------------------------------------------- breadcrumbs and watchdog

struct Crumbs(*mut AtomicU64);
unsafe impl Send for Crumbs {}
unsafe impl Sync for Crumbs {}
impl Crumbs {
    fn open(path: &str) -> Self {
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("crumbs");
        f.set_len((MAX_SHARDS * 16) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MAX_SHARDS * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Crumbs(p as *mut AtomicU64)
    }
    fn set(&self, shard: usize, v: u64) {
        unsafe { (*self.0.add(shard)).store(v, SeqCst) }
    }
    fn hang(&self, shard: usize) {
        unsafe { (*self.0.add(MAX_SHARDS + shard)).store(1, SeqCst) }
    }
}
fn read_crumbs(path: &str) -> (Vec<u64>, Vec<u64>) {
    let b = std::fs::read(path).unwrap_or_default();
    let at = |i: usize| {
        b.get(i * 8..i * 8 + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
    };
    ((0..MAX_SHARDS).map(at).collect(), (0..MAX_SHARDS).map(|i| at(MAX_SHARDS + i)).collect())
}

static CLOCKS: [AtomicI64; MAX_SHARDS] = [const { AtomicI64::new(0) }; MAX_SHARDS];
static STARTED: [AtomicU64; MAX_SHARDS] = [const { AtomicU64::new(0) }; MAX_SHARDS];

fn cpu_of(clk: i64) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::syscall(libc::SYS_clock_gettime, clk, &mut ts as *mut _) };
    if r != 0 { 0.0 } else { ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9 }
}
fn watch_enter(shard: usize) {
    let mut clk: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
    CLOCKS[shard].store(clk as i64, SeqCst);
}
fn watch_case(shard: usize) {
    let t = cpu_of(CLOCKS[shard].load(SeqCst));
    STARTED[shard].store((t * 1e6) as u64 + 1, SeqCst);
}
fn watch_leave(shard: usize) {
    STARTED[shard].store(0, SeqCst);
    CLOCKS[shard].store(0, SeqCst);
}
fn start_watchdog(on_hang: impl Fn(usize) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in 0..MAX_SHARDS {
            let clk = CLOCKS[s].load(SeqCst);
            let st = STARTED[s].load(SeqCst);
            if clk != 0 && st != 0 {
                let used = cpu_of(clk) - st as f64 / 1e6;
                if used > CPU_LIMIT_S && STARTED[s].load(SeqCst) == st && CLOCKS[s].load(SeqCst) == clk {
                    on_hang(s);
                    unsafe { libc::_exit(EXIT_HANG) }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- shrinking

/// `still` runs the choices and returns the choices actually used when they fail the same way.
pub fn shrink(
    mut best: Vec<u64>, budget: usize, until: Instant, still: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut left = budget;
    let mut attempt = |c: &[u64], best: &Vec<u64>, left: &mut usize| -> Option<Vec<u64>> {
        if *left == 0 || Instant::now() > until {
            return None;
        }
        *left -= 1;
        let mut used = still(c)?;
        while used.last() == Some(&0) {
            used.pop();
        }
        if used.len() < best.len() || (used.len() == best.len() && used < *best) {
            Some(used)
        } else {
            None
        }
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    if let Some(u) = attempt(&c, &best, &mut left) {
                        best = u;
                        i = i.min(best.len());
                        continue;
                    }
                    if best[lo..i].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c[lo..i].iter_mut().for_each(|x| *x = 0);
                        if let Some(u) = attempt(&c, &best, &mut left) {
                            best = u;
                            i = i.min(best.len());
                            continue;
                        }
                    }
                }
                i = lo;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let (mut lo, hi) = (0u64, best[i]);
            let mut cur = hi;
            while lo < cur {
                let mid = lo + (cur - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if let Some(u) = attempt(&c, &best, &mut left) {
                    best = u;
                    cur = best.get(i).copied().unwrap_or(0).min(mid);
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == before || left == 0 || Instant::now() > until {
            return best;
        }
    }
}

// ---------------------------------------------------------------- worker

struct ShardOut {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    failure: Option<(u64, Vec<u64>, Failure)>,
    broken: Option<String>,
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" ...");
        t
    }
}
/// the beginning of a text that may be very long
pub fn brief(s: &str, n: usize) -> String {
    let end = s.char_indices().nth(n).map_or(s.len(), |x| x.0);
    let mut o = show(&s[..end]);
    if end < s.len() {
        o.push_str(" ...");
    }
    o
}
/// makes SOH and other control characters readable
pub fn show(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\u{1}' => o.push('|'),
            '|' => o.push_str("\\x7c"),
            c if c.is_control() => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn known_sigs(id: &str) -> BTreeMap<String, String> {
    let path = verif_dir() + "/known_findings.txt";
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut m = BTreeMap::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("KNOWN-FINDING: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, s, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p.strip_prefix("property=") == Some(id) {
                if let Some(sig) = s.strip_prefix("id=") {
                    m.insert(sig.to_string(), t.to_string());
                }
            }
        }
    }
    m
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
pub fn tier() -> &'static str {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }
}
pub fn scale() -> f64 {
    std::env::var("FIXCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

fn worker(p: &'static Prop, crumbs_path: &str, out_path: &str) -> i32 {
    install_hook();
    silence_stdout();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 18 << 30, rlim_max: 18 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    if let Err(e) = crate::clock::self_check() {
        eprintln!("{}", e);
        return 2;
    }
    let crumbs = std::sync::Arc::new(Crumbs::open(crumbs_path));
    {
        let c = crumbs.clone();
        start_watchdog(move |s| c.hang(s));
    }
    let known = known_sigs(p.id);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(if tier() == "quick" { 520 } else { 6 * 3600 });
    let total = ((if tier() == "quick" { p.quick } else { p.thorough }) as f64 * scale()).ceil() as u64;
    let shards = p.threads;
    let per = total.div_ceil(shards as u64);
    let best_fail = AtomicU64::new(u64::MAX);
    let timed_out = AtomicBool::new(false);
    let sd = seed();
    let outs: Mutex<Vec<(usize, ShardOut)>> = Mutex::new(vec![]);

    // fixed cases: plain regression and boundary checks, run first on a watched thread
    let mut fixed_ran = 0u64;
    let mut fixed_fail: Option<(String, Failure)> = None;
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut broken: Option<String> = None;
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, || {
                watch_enter(MAX_SHARDS - 1);
                for (i, (name, f)) in p.fixed.iter().enumerate() {
                    crumbs.set(MAX_SHARDS - 1, i as u64 + 1);
                    watch_case(MAX_SHARDS - 1);
                    let mut ctx = Ctx::default();
                    fixed_ran += 1;
                    let r = run_any(&mut |c| f(c), &mut ctx);
                    for (l, n) in ctx.labels {
                        *labels.entry(l).or_default() += n;
                    }
                    match r {
                        Outcome::Pass => {}
                        Outcome::Fail(f) if known.contains_key(&f.sig) => {
                            *known_seen.entry(f.sig).or_default() += 1
                        }
                        Outcome::Fail(f) => {
                            if fixed_fail.is_none() {
                                fixed_fail = Some((name.to_string(), f))
                            }
                        }
                        Outcome::Broken(b) => broken = Some(format!("fixed case {}: {}", name, b)),
                    }
                }
                crumbs.set(MAX_SHARDS - 1, 0);
                watch_leave(MAX_SHARDS - 1);
            })
            .unwrap();
    });

    if fixed_fail.is_none() && broken.is_none() {
        std::thread::scope(|sc| {
            for s in 0..shards {
                let (crumbs, outs, known) = (&crumbs, &outs, &known);
                let (best_fail, timed_out) = (&best_fail, &timed_out);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        watch_enter(s);
                        let mut o = ShardOut {
                            evals: 0,
                            nontrivial: HashSet::new(),
                            labels: BTreeMap::new(),
                            samples: vec![],
                            known: BTreeMap::new(),
                            failure: None,
                            broken: None,
                        };
                        for i in 0..per {
                            if i > best_fail.load(SeqCst) {
                                break;
                            }
                            if i % 16 == 0 && Instant::now() > deadline {
                                timed_out.store(true, SeqCst);
                                break;
                            }
                            crumbs.set(s, i + 1);
                            watch_case(s);
                            let mut tape = Tape::random(sd, p.id, s as u64, i);
                            let mut ctx = Ctx::default();
                            let r = run_case(p, &mut tape, &mut ctx);
                            o.evals += 1;
                            for (l, n) in &ctx.labels {
                                if let Some(c) = o.labels.get_mut(l) {
                                    *c += n
                                } else {
                                    o.labels.insert(l.clone(), *n);
                                }
                            }
                            if ctx.nontrivial {
                                let k = ctx.key.unwrap_or_else(|| {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    tape.rec.hash(&mut h);
                                    h.finish()
                                });
                                o.nontrivial.insert(k);
                                if o.samples.len() < 2 && (i > per / 3 || per < 8) {
                                    if let Some(x) = ctx.sample {
                                        o.samples.push(clip(&x, 900));
                                    }
                                }
                            }
                            match r {
                                Outcome::Pass => {}
                                Outcome::Fail(f) if known.contains_key(&f.sig) => {
                                    *o.known.entry(f.sig).or_default() += 1
                                }
                                Outcome::Fail(f) => {
                                    best_fail.fetch_min(i, SeqCst);
                                    o.failure = Some((i, tape.rec.clone(), f));
                                    break;
                                }
                                Outcome::Broken(b) => {
                                    best_fail.fetch_min(i, SeqCst);
                                    o.broken = Some(format!("shard {} case {}: {}", s, i, b));
                                    break;
                                }
                            }
                        }
                        crumbs.set(s, 0);
                        watch_leave(s);
                        outs.lock().unwrap().push((s, o));
                    })
                    .unwrap();
            }
        });
    }
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|x| x.0);
    let mut evals = fixed_ran;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut failure: Option<(u64, usize, Vec<u64>, Failure)> = None;
    for (s, o) in outs {
        evals += o.evals;
        distinct.extend(&o.nontrivial);
        for (l, n) in o.labels {
            *labels.entry(l).or_default() += n;
        }
        for (k, n) in o.known {
            *known_seen.entry(k).or_default() += n;
        }
        samples.extend(o.samples);
        if let Some(b) = o.broken {
            broken.get_or_insert(b);
        }
        if let Some((i, c, f)) = o.failure {
            if failure.as_ref().map_or(true, |x| (i, s) < (x.0, x.1)) {
                failure = Some((i, s, c, f));
            }
        }
    }
    samples.truncate(6);
    let mut fj = Value::Null;
    if let Some((name, f)) = fixed_fail {
        fj = json!({"fixed": name, "sig": f.sig, "msg": f.msg, "repro": clip(&f.repro, 20000)});
    } else if let Some((i, s, choices, f)) = failure {
        // shrink on this thread, watched
        let (mut best, mut bestf) = (choices.clone(), f.clone());
        let (budget, secs) = if p.net { (25, 60) } else { (4000, 45) };
        let sig = f.sig.clone();
        let th = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, || {
                    let mut lastf = f.clone();
                    let c = shrink(
                        choices.clone(),
                        budget,
                        Instant::now() + Duration::from_secs(secs),
                        &mut |c| {
                            let mut t = Tape::replay(c.to_vec());
                            let mut ctx = Ctx::default();
                            match run_case(p, &mut t, &mut ctx) {
                                Outcome::Fail(f) if f.sig == sig => {
                                    lastf = f;
                                    Some(t.rec)
                                }
                                _ => None,
                            }
                        },
                    );
                    // describe the shrunk case itself
                    let mut shown = None;
                    for _ in 0..10 {
                        let mut t = Tape::replay(c.clone());
                        let mut ctx = Ctx::default();
                        if let Outcome::Fail(f) = run_case(p, &mut t, &mut ctx) {
                            shown = Some(f);
                            break;
                        }
                        if p.net {
                            break;
                        }
                    }
                    (c, shown)
                })
                .unwrap()
                .join()
        });
        if let Ok((c, Some(f))) = th {
            best = c;
            bestf = f;
        }
        fj = json!({"shard": s, "index": i, "choices": best, "sig": bestf.sig, "msg": bestf.msg,
            "repro": clip(&bestf.repro, 20000)});
    }
    let out = json!({
        "evaluations": evals, "fixed": fixed_ran, "distinct": distinct.len(), "labels": labels,
        "samples": samples, "known": known_seen, "failure": fj, "broken": broken,
        "timed_out": timed_out.load(SeqCst), "planned": total,
    });
    std::fs::write(out_path, serde_json::to_vec(&out).unwrap()).unwrap();
    0
}

fn silence_stdout() {
    if std::env::var("FIXCHECK_NOISE").is_ok() {
        return;
    }
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::close(n);
    }
}

// ---------------------------------------------------------------- parent

fn scratch() -> String {
    let d = format!("{}/fixcheck.{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn child(args: &[String], secs: u64, env: &[(&str, &str)]) -> Result<std::process::ExitStatus, String> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(args).stdin(std::process::Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut ch = c.spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => return Ok(s),
            None if t0.elapsed().as_secs() > secs => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(format!("no answer within {} s", secs));
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn crash_text(st: &std::process::ExitStatus) -> Option<(&'static str, String)> {
    if st.code() == Some(crate::alloc::EXIT_ALLOC) {
        return Some(("alloc", "the engine allocates far more memory than its input is large".into()));
    }
    if st.code() == Some(EXIT_HANG) {
        return Some(("hang", format!("the engine does not return ({} s of processor time)", CPU_LIMIT_S)));
    }
    st.signal().filter(|s| [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL].contains(s)).map(|s| {
        ("crash", format!("the engine crashes the process with signal {} (stack overflow or abort)", s))
    })
}

pub fn run(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let code = run_in(p, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn replay_path(id: &str) -> String {
    let d = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    format!("{}/{}.json", d, id)
}

fn run_in(p: &'static Prop, dir: &str, t0: Instant) -> i32 {
    let (crumbs, out) = (format!("{}/crumbs", dir), format!("{}/out.json", dir));
    std::fs::write(&crumbs, vec![0u8; MAX_SHARDS * 16]).unwrap();
    let limit = if tier() == "quick" { 780 } else { 8 * 3600 };
    let st = match child(&["worker".into(), p.id.into(), crumbs.clone(), out.clone()], limit, &[]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: worker: {}", p.id, e);
            return 2;
        }
    };
    let mut viol: Option<Value> = None;
    let mut v = json!({"evaluations": 0, "fixed": 0, "distinct": 0, "labels": {}, "samples": [], "known": {},
        "failure": null, "broken": null, "timed_out": false, "planned": 0});
    if let Some((kind, _)) = crash_text(&st) {
        // find and confirm the case that ended the worker
        let (cur, hang) = read_crumbs(&crumbs);
        let order: Vec<usize> = (0..MAX_SHARDS).filter(|s| cur[*s] > 0).collect();
        let mut evals = 0;
        for s in &order {
            evals += cur[*s];
            if kind == "hang" && hang[*s] == 0 {
                continue;
            }
            let rec = format!("{}/rec", dir);
            let _ = std::fs::remove_file(&rec);
            let idx = cur[*s] - 1;
            let args: Vec<String> = if *s == MAX_SHARDS - 1 {
                vec!["fixed".into(), p.id.into(), idx.to_string()]
            } else {
                vec!["one".into(), p.id.into(), s.to_string(), idx.to_string()]
            };
            let r = child(&args, 300, &[("FIXCHECK_REC", &rec)]);
            if let Ok(st2) = r {
                if let Some((k2, t2)) = crash_text(&st2) {
                    if p.net && k2 == "hang" {
                        continue;
                    }
                    if *s == MAX_SHARDS - 1 {
                        viol = Some(json!({"fixed": p.fixed[idx as usize].0, "sig": k2, "msg": t2, "repro": ""}));
                        break;
                    }
                    let choices: Vec<u64> = read_rec(&rec);
                    let tfile = format!("{}/tape", dir);
                    let rec2 = format!("{}/rec2", dir);
                    let until = Instant::now() + Duration::from_secs(90);
                    let budget = if k2 == "hang" { 0 } else { 400 };
                    let best = shrink(choices, budget, until, &mut |c| {
                        let _ = std::fs::remove_file(&rec2);
                        std::fs::write(&tfile, serde_json::to_vec(c).unwrap()).unwrap();
                        let r = child(&["tape".into(), p.id.into(), tfile.clone()], 120, &[("FIXCHECK_REC", &rec2)]);
                        match r {
                            Ok(s) if crash_text(&s).map(|x| x.0) == Some(k2) => Some(read_rec(&rec2)),
                            _ => None,
                        }
                    });
                    viol = Some(json!({"shard": s, "index": idx, "choices": best, "sig": k2, "msg": t2, "repro": ""}));
                    break;
                }
            }
        }
        v["evaluations"] = json!(evals);
        if viol.is_none() {
            eprintln!("{}: the worker ended with {:?} and no single case reproduces it", p.id, st);
            return 2;
        }
    } else if st.code() != Some(0) {
        eprintln!("{}: worker ended with {:?}", p.id, st);
        return 2;
    } else {
        v = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
        if !v["failure"].is_null() {
            viol = Some(v["failure"].clone());
        } else if let Some(b) = v["broken"].as_str() {
            eprintln!("{}: {}", p.id, b);
            return 2;
        }
    }
    for (sig, text) in known_sigs(p.id) {
        if v["known"].get(&sig).is_some() {
            println!("KNOWN-FINDING: property={} id={} {}", p.id, sig, text);
        }
    }
    let mut code = 0;
    if let Some(mut f) = viol.clone() {
        f["property"] = json!(p.id);
        f["seed"] = json!(seed());
        f["tier"] = json!(tier());
        f["replay_with"] = json!(format!("bash /verif/check.sh {} --replay {}", p.id, replay_path(p.id)));
        std::fs::write(replay_path(p.id), serde_json::to_vec_pretty(&f).unwrap()).unwrap();
        println!("{}: {}", p.id, f["msg"].as_str().unwrap_or(""));
        if let Some(r) = f["repro"].as_str().filter(|r| !r.is_empty()) {
            println!("{}: minimal case: {}", p.id, clip(r, 3000));
        }
        println!("VIOLATION property={} replay={}", p.id, replay_path(p.id));
        code = 1;
    }
    let ev = json!({
        "property": p.id, "tier": tier(), "seed": seed() as i64, "level": "exploration",
        "coverage": {
            "evaluations": v["evaluations"], "distinct_nontrivial": v["distinct"], "rule": p.rule,
            "samples": v["samples"], "labels": v["labels"], "fixed_cases": v["fixed"],
            "planned_generated_cases": v["planned"], "stopped_early_by_time": v["timed_out"],
            "known_findings_reproduced": v["known"],
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if viol.is_some() { 1 } else { 0 },
    });
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{}/{}.json", d, p.id), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s{}",
        p.id, v["evaluations"], v["distinct"], t0.elapsed().as_secs_f64(),
        if v["timed_out"] == json!(true) { " (stopped early)" } else { "" }
    );
    code
}

fn read_rec(path: &str) -> Vec<u64> {
    let mut b = vec![];
    if let Ok(mut f) = std::fs::File::open(path) {
        let _ = f.read_to_end(&mut b);
    }
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

/// Runs one thing on a watched thread of this process and reports it.
fn single(f: impl FnOnce(&mut Ctx) -> Option<Failure> + Send) -> i32 {
    start_watchdog(|_| ());
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, || {
                watch_enter(0);
                watch_case(0);
                let mut ctx = Ctx::default();
                let r = f(&mut ctx);
                watch_leave(0);
                (r, ctx)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        (None, ctx) => {
            println!("passes; labels {:?}", ctx.labels);
            if let Some(s) = ctx.sample {
                println!("case: {}", s);
            }
            0
        }
        (Some(f), _) => {
            println!("FAILS [{}] {}\ncase: {}", f.sig, f.msg, f.repro);
            1
        }
    }
}
fn to_fail(o: Outcome) -> Option<Failure> {
    match o {
        Outcome::Pass => None,
        Outcome::Fail(f) => Some(f),
        Outcome::Broken(b) => Some(fail("broken", b, "")),
    }
}

pub fn main_with(props: &'static [&'static Prop]) -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let usage = || {
        eprintln!("usage: fixcheck run ID | replay FILE | one ID SHARD INDEX | list");
        2
    };
    if a.first().map(|s| s.as_str()) == Some("list") {
        for p in props {
            println!("{}", p.id);
        }
        return 0;
    }
    if a.len() < 2 {
        return usage();
    }
    if a[0] == "pure" {
        install_hook();
        return crate::props::pure();
    }
    let find = |id: &str| props.iter().find(|p| p.id == id).copied();
    if a[0] == "replay" {
        install_hook();
        let v: Value = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
        let p = find(v["property"].as_str().unwrap()).unwrap();
        if let Some(name) = v["fixed"].as_str() {
            let f = p.fixed.iter().find(|x| x.0 == name).unwrap().1;
            return single(|c| to_fail(run_any(&mut |c| f(c), c)));
        }
        let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        return single(|c| {
            for _ in 0..20 {
                if let Some(f) = to_fail(run_case(p, &mut Tape::replay(choices.clone()), c)) {
                    return Some(f);
                }
                if p.net {
                    break;
                }
            }
            None
        });
    }
    let Some(p) = find(&a[1]) else { return usage() };
    match (a[0].as_str(), a.len()) {
        ("run", 2) => run(p),
        ("worker", 4) => worker(p, &a[2], &a[3]),
        ("one", 4) => {
            install_hook();
            let (s, i) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            single(|c| to_fail(run_case(p, &mut Tape::random(seed(), p.id, s, i), c)))
        }
        ("fixed", 3) => {
            install_hook();
            let f = p.fixed[a[2].parse::<usize>().unwrap()].1;
            single(|c| to_fail(run_any(&mut |c| f(c), c)))
        }
        ("tape", 3) => {
            install_hook();
            let choices: Vec<u64> = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            single(|c| to_fail(run_case(p, &mut Tape::replay(choices), c)))
        }
        _ => usage(),
    }
}

pub fn rec_file() -> Option<std::fs::File> {
    let p = std::env::var("FIXCHECK_REC").ok()?;
    std::fs::OpenOptions::new().create(true).append(true).open(p).ok()
}
pub fn rec_write(f: &mut std::fs::File, v: u64) {
    let _ = f.write_all(&v.to_le_bytes());
}
