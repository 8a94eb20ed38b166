//! The campaign runner: forks workers over disjoint case indices, contains
//! crashes of the code under test, shrinks failures, writes replay files and
//! the evidence file.

use crate::choice::{case_bytes, Src};
use crate::term::{parse_t, T};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------ work meter

pub struct Meter;
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
/// allocations one case may make before it counts as not terminating
pub const WORK_LIMIT: u64 = 120_000_000;
/// bytes that may be alive at once in one case
pub const MEM_LIMIT: u64 = 1_500_000_000;
const EXIT_WORK: i32 = 77;

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = ALLOCS.load(Relaxed) + 1;
        ALLOCS.store(n, Relaxed);
        let live = LIVE.load(Relaxed).wrapping_add(l.size() as u64);
        LIVE.store(live, Relaxed);
        if n > LIMIT.load(Relaxed) || (live > LIVE_LIMIT.load(Relaxed) && live < 1 << 60) {
            libc::_exit(EXIT_WORK);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.store(LIVE.load(Relaxed).wrapping_sub(l.size() as u64), Relaxed);
        System.dealloc(p, l)
    }
}

// ------------------------------------------------------------ cases

/// one generated input, in a form every property shares
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub op: String,
    pub ts: Vec<T>,
    pub ns: Vec<i128>,
    pub ss: Vec<String>,
}

impl Case {
    pub fn new(op: &str, ts: Vec<T>) -> Case {
        Case {
            op: op.into(),
            ts,
            ..Case::default()
        }
    }
    pub fn text(&self) -> String {
        let mut s = self.op.clone();
        for t in &self.ts {
            let _ = write!(s, " | {t}");
        }
        if !self.ns.is_empty() {
            let _ = write!(s, " | {:?}", self.ns);
        }
        if !self.ss.is_empty() {
            let _ = write!(s, " | {:?}", self.ss);
        }
        s
    }
    pub fn to_json(&self) -> Value {
        json!({
            "op": self.op,
            "ts": self.ts.iter().map(|t| t.to_string()).collect::<Vec<_>>(),
            "ns": self.ns.iter().map(|n| n.to_string()).collect::<Vec<_>>(),
            "ss": self.ss,
        })
    }
    pub fn from_json(v: &Value) -> Result<Case, String> {
        let arr = |k: &str| -> Vec<String> {
            v[k].as_array()
                .map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())
                .unwrap_or_default()
        };
        Ok(Case {
            op: v["op"].as_str().ok_or("op")?.into(),
            ts: arr("ts").iter().map(|s| parse_t(s)).collect::<Result<_, _>>()?,
            ns: arr("ns")
                .iter()
                .map(|s| s.parse::<i128>().map_err(|e| e.to_string()))
                .collect::<Result<_, _>>()?,
            ss: arr("ss"),
        })
    }
    fn key(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.text().hash(&mut h);
        h.finish()
    }
}

/// what a check reports about the case it looked at
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub discard: Option<&'static str>,
}
impl Cx {
    pub fn hit(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn nt(&mut self, b: bool) {
        self.nontrivial |= b
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Src, Tier) -> Case,
    pub check: fn(&Case, &mut Cx) -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------ one case

#[derive(Debug, Clone)]
pub enum Res {
    Pass,
    Discard(String),
    Fail(String),
    Harness(String),
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = i.payload();
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if std::env::var_os("VERIF_DEBUG").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        if let Ok(mut g) = PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
}

pub fn run_case(p: &Prop, c: &Case, cx: &mut Cx) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| (p.check)(c, cx)));
    match r {
        Ok(Ok(())) => match cx.discard {
            Some(d) => Res::Discard(d.into()),
            None => Res::Pass,
        },
        Ok(Err(m)) => Res::Fail(m),
        Err(_) => {
            let (loc, msg) = PANIC.lock().ok().and_then(|mut g| g.take()).unwrap_or_default();
            let msg: String = msg.chars().take(300).collect();
            if loc.starts_with("src/") {
                Res::Harness(format!("harness panic at {loc}: {msg}"))
            } else if msg.contains("with overflow") && !loc.starts_with("/repo") && !matches!(p.id, "C01" | "C02") {
                // numbers beyond the library's 128-bit integers (C01 and C02 stay inside them)
                Res::Discard("integer overflow".into())
            } else {
                Res::Fail(format!("panicked: {msg} ({loc})"))
            }
        }
    }
}

fn gen_case(p: &Prop, bytes: &[u8], tier: Tier) -> (Case, usize) {
    let mut s = Src::new(bytes);
    let c = (p.gen)(&mut s, tier);
    (c, s.used())
}

// ------------------------------------------------------------ workers

struct Shared(*mut u64);
unsafe impl Sync for Shared {}
impl Shared {
    fn new(n: usize) -> Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                n * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Shared(p as *mut u64)
        }
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
}

/// run `f` in a forked child on a thread with a large stack
fn fork_run(f: impl FnOnce() + Send) -> libc::pid_t {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid > 0 {
            return pid;
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // crashes are expected to be reported by status only
        let lim = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        if std::env::var_os("VERIF_DEBUG").is_none() {
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 2);
            }
        }
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(192 << 20)
                .spawn_scoped(s, f);
            match h {
                Ok(h) => {
                    if h.join().is_err() {
                        libc::_exit(70);
                    }
                }
                Err(_) => libc::_exit(71),
            }
        });
        libc::_exit(0)
    }
}

enum End {
    Clean,
    Work,
    Signal(i32),
    Code(i32),
}
fn ended(status: i32) -> End {
    if libc::WIFSIGNALED(status) {
        End::Signal(libc::WTERMSIG(status))
    } else {
        match libc::WEXITSTATUS(status) {
            0 => End::Clean,
            EXIT_WORK => End::Work,
            c => End::Code(c),
        }
    }
}

fn start_case_meter() {
    ALLOCS.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    LIMIT.store(WORK_LIMIT, Relaxed);
    LIVE_LIMIT.store(MEM_LIMIT, Relaxed);
}
fn stop_case_meter() -> u64 {
    LIMIT.store(u64::MAX, Relaxed);
    LIVE_LIMIT.store(u64::MAX, Relaxed);
    ALLOCS.load(Relaxed)
}

const MAX_WORKERS: usize = 64;

#[derive(Default)]
struct Stats {
    evals: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    discards: BTreeMap<String, u64>,
    max_work: u64,
    samples: Vec<String>,
    known_hits: u64,
}

pub struct Outcome {
    pub exit: i32,
}

fn scratch(id: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("calcu-verif-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// what `f` returns when it runs in a process of its own, forked from this one
pub fn in_child(f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fd = [0; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "pipe failed");
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fd[0]);
            let out = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(Ok(s)) => format!("+{s}"),
                Ok(Err(s)) => format!("-{s}"),
                Err(_) => {
                    let (loc, msg) = PANIC.lock().ok().and_then(|mut g| g.take()).unwrap_or_default();
                    let overflow = msg.contains("with overflow") && !loc.starts_with("/repo");
                    format!("{}panicked: {msg} ({loc})", if overflow { '?' } else { '-' })
                }
            };
            let mut file = std::fs::File::from_raw_fd(fd[1]);
            let ok = file.write_all(out.as_bytes()).is_ok();
            libc::_exit(!ok as i32);
        }
        libc::close(fd[1]);
        let mut out = String::new();
        let mut file = std::fs::File::from_raw_fd(fd[0]);
        let _ = file.read_to_string(&mut out);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        match ended(st) {
            End::Clean => match out.split_at_checked(1) {
                Some(("+", s)) => Ok(s.to_string()),
                Some(("-", s)) => Err(s.to_string()),
                Some(("?", _)) => Ok("integer overflow".into()),
                _ => panic!("no answer from a child process"),
            },
            End::Work => Err(format!("does not terminate: exceeded {WORK_LIMIT} allocations or {MEM_LIMIT} live bytes")),
            End::Signal(s) if s != libc::SIGKILL => Err(format!("crashed the process with signal {s} (stack overflow or abort)")),
            _ => panic!("a child process failed"),
        }
    }
}

/// evaluate one case in a child; the result is written to `file`
fn eval_isolated(p: &Prop, c: &Case, file: &Path, limit_s: u64) -> Res {
    let _ = std::fs::remove_file(file);
    let pid = fork_run(|| {
        let mut cx = Cx::default();
        start_case_meter();
        let r = run_case(p, c, &mut cx);
        stop_case_meter();
        let v = match r {
            Res::Pass => json!(["pass", ""]),
            Res::Discard(m) => json!(["discard", m]),
            Res::Fail(m) => json!(["fail", m]),
            Res::Harness(m) => json!(["harness", m]),
        };
        let _ = std::fs::write(file, v.to_string());
    });
    match wait_limit(pid, limit_s) {
        None => Res::Harness(format!("no answer within {limit_s} s")),
        Some(End::Clean) => {
            let v: Value = std::fs::read_to_string(file)
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok())
                .unwrap_or(Value::Null);
            let m = v[1].as_str().unwrap_or("").to_string();
            match v[0].as_str() {
                Some("pass") => Res::Pass,
                Some("discard") => Res::Discard(m),
                Some("fail") => Res::Fail(m),
                _ => Res::Harness(m),
            }
        }
        Some(End::Work) => Res::Fail(format!(
            "does not terminate: exceeded {WORK_LIMIT} allocations or {MEM_LIMIT} live bytes"
        )),
        Some(End::Signal(libc::SIGKILL)) => Res::Harness("killed".into()),
        Some(End::Signal(s)) => Res::Fail(format!(
            "crashed the process with signal {s} (stack overflow or abort)"
        )),
        Some(End::Code(c)) => Res::Harness(format!("child exit {c}")),
    }
}

fn wait_limit(pid: libc::pid_t, limit_s: u64) -> Option<End> {
    let t0 = Instant::now();
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            return Some(ended(st));
        }
        if t0.elapsed().as_secs() >= limit_s {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return None;
        }
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
}

fn shrink(p: &Prop, bytes: &[u8], tier: Tier, dir: &Path, msg: &mut String) -> Case {
    let file = dir.join("shrink.json");
    let (mut best_case, used) = gen_case(p, bytes, tier);
    let mut best: Vec<u8> = bytes[..used].to_vec();
    let mut tries = 0;
    let max_tries = 2500;
    let started = std::time::Instant::now();
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut attempt = |cand: Vec<u8>, best: &mut Vec<u8>, best_case: &mut Case, msg: &mut String, tries: &mut i32| -> bool {
        if *tries >= max_tries || started.elapsed().as_secs() > 90 || !seen.insert(cand.clone()) {
            return false;
        }
        let Ok((c, used)) = catch_unwind(AssertUnwindSafe(|| gen_case(p, &cand, tier))) else {
            return false;
        };
        if c == *best_case {
            // same case from fewer / smaller bytes
            if used < best.len() {
                *best = cand[..used.min(cand.len())].to_vec();
                return true;
            }
            return false;
        }
        *tries += 1;
        match eval_isolated(p, &c, &file, 60) {
            Res::Fail(m) => {
                *msg = m;
                *best_case = c;
                *best = cand[..used.min(cand.len())].to_vec();
                true
            }
            _ => false,
        }
    };
    loop {
        let mut improved = false;
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if attempt(c, &mut best, &mut best_case, msg, &mut tries) {
                    improved = true;
                } else {
                    i += (k / 2).max(1);
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|b| *b != 0) {
                    let mut c = best.clone();
                    c[i..i + k].fill(0);
                    improved |= attempt(c, &mut best, &mut best_case, msg, &mut tries);
                }
                i += 1;
            }
        }
        // lower bytes
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for d in [128u8, 64, 32, 16, 8, 4] {
                if i < best.len() && best[i] >= d {
                    let mut c = best.clone();
                    c[i] -= d;
                    improved |= attempt(c, &mut best, &mut best_case, msg, &mut tries);
                }
            }
        }
        if !improved || tries >= max_tries {
            return best_case;
        }
    }
}

// ------------------------------------------------------------ entry points

pub struct Opts {
    pub root: PathBuf,
    pub tier: Tier,
    pub seed: u64,
    pub cases: Option<u64>,
    pub keep_going: bool,
}

fn load_list(path: &Path, id: &str) -> Result<Vec<(String, Case)>, String> {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(_) => return Ok(vec![]),
    };
    let v: Value = serde_json::from_str(&s).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut out = vec![];
    for e in v["findings"].as_array().or(v["cases"].as_array()).unwrap_or(&vec![]) {
        if e["property"].as_str() == Some(id) {
            out.push((
                e["what"].as_str().unwrap_or("").to_string(),
                Case::from_json(&e["case"])?,
            ));
        }
    }
    Ok(out)
}

fn write_replay(root: &Path, p: &Prop, c: &Case, msg: &str, origin: Value) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", p.id, c.key()));
    let v = json!({"property": p.id, "message": msg, "case": c.to_json(), "origin": origin});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
    path
}

pub fn replay(props: &[Prop], root: &Path, file: &Path) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read {}: {e}", file.display());
            return 2;
        }
    };
    let v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            println!("bad replay file: {e}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    if id == crate::macros::ID {
        return crate::macros::replay(root, &v, file);
    }
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("unknown property {id}");
            return 2;
        }
    };
    let c = match Case::from_json(&v["case"]) {
        Ok(c) => c,
        Err(e) => {
            println!("bad case: {e}");
            return 2;
        }
    };
    let dir = scratch(id);
    let r = eval_isolated(p, &c, &dir.join("r.json"), 120);
    let _ = std::fs::remove_dir_all(&dir);
    println!("case: {}", c.text());
    match r {
        Res::Fail(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        Res::Pass => {
            println!("holds");
            0
        }
        Res::Discard(m) => {
            println!("discarded: {m}");
            0
        }
        Res::Harness(m) => {
            println!("error: {m}");
            2
        }
    }
}

pub fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let dir = scratch(p.id);
    let code = check_in(p, o, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(p: &Prop, o: &Opts, dir: &Path, t0: Instant) -> i32 {
    let total = o.cases.unwrap_or(match o.tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    });
    let mut violations: Vec<(PathBuf, String)> = vec![];
    let mut notes: Vec<String> = vec![];

    // 1. known findings and saved regression cases
    let known = match load_list(&o.root.join("known_findings.json"), p.id) {
        Ok(k) => k,
        Err(e) => {
            println!("error: {e}");
            return 2;
        }
    };
    let file = dir.join("one.json");
    for (what, c) in &known {
        match eval_isolated(p, c, &file, 120) {
            Res::Fail(m) => {
                println!("KNOWN-FINDING: property={} {what} [{}]", p.id, c.text());
                notes.push(format!("known finding reproduced: {} -> {m}", c.text()));
            }
            Res::Harness(m) => {
                println!("error: {m}");
                return 2;
            }
            _ => notes.push(format!("known finding no longer fails: {}", c.text())),
        }
    }
    let regr = match load_list(&o.root.join("regressions.json"), p.id) {
        Ok(k) => k,
        Err(e) => {
            println!("error: {e}");
            return 2;
        }
    };
    let mut regr_run = 0u64;
    for (_, c) in &regr {
        regr_run += 1;
        match eval_isolated(p, c, &file, 120) {
            Res::Fail(m) => {
                let path = write_replay(&o.root, p, c, &m, json!("regression"));
                println!("{}: {m}", c.text());
                violations.push((path, m));
                break;
            }
            Res::Harness(m) => {
                println!("error in regression case {}: {m}", c.text());
                return 2;
            }
            _ => (),
        }
    }

    // 2. generated campaign
    let nw = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, MAX_WORKERS);
    let known_keys: HashSet<u64> = known.iter().map(|(_, c)| c.key()).collect();
    // cell 0: lowest failing index; 1..: progress of the workers
    let sh = Shared::new(1 + MAX_WORKERS);
    let mut st = Stats::default();
    let mut fail: Option<(u64, String)> = None;
    if violations.is_empty() {
        sh.cell(0).store(u64::MAX, Relaxed);
        let mut pids: Vec<(libc::pid_t, usize)> = vec![];
        for w in 0..nw {
            sh.cell(1 + w).store(u64::MAX, Relaxed);
            let out = dir.join(format!("w{w}.json"));
            let keysf = dir.join(format!("w{w}.keys"));
            let shr = &sh;
            let known_keys = &known_keys;
            let pid = fork_run(move || worker(p, o, w, nw, total, shr, known_keys, &out, &keysf));
            pids.push((pid, w));
        }
        let limit = if o.tier == Tier::Quick { 780 } else { 6 * 3600 };
        let mut crashed: Vec<(usize, End)> = vec![];
        let mut left = pids.clone();
        while !left.is_empty() {
            let mut s = 0;
            let r = unsafe { libc::waitpid(-1, &mut s, libc::WNOHANG) };
            if r > 0 {
                if let Some(k) = left.iter().position(|(q, _)| *q == r) {
                    let (_, w) = left.remove(k);
                    match ended(s) {
                        End::Clean => (),
                        e => {
                            let idx = sh.cell(1 + w).load(Relaxed);
                            sh.cell(0).fetch_min(idx, Relaxed);
                            crashed.push((w, e));
                        }
                    }
                }
            } else {
                std::thread::sleep(std::time::Duration::from_millis(5));
                if t0.elapsed().as_secs() > limit {
                    for (q, _) in &left {
                        unsafe {
                            libc::kill(*q, libc::SIGKILL);
                            libc::waitpid(*q, &mut s, 0);
                        }
                    }
                    println!("error: watchdog: the campaign did not finish in {limit} s");
                    for (_, w) in &left {
                        let idx = sh.cell(1 + w).load(Relaxed);
                        let mut b = vec![];
                        case_bytes(o.seed, stream(p.id), idx, &mut b);
                        println!("  worker {w} at case {idx}: {}", gen_case(p, &b, o.tier).0.text());
                    }
                    return 3;
                }
            }
        }
        for w in 0..nw {
            let v: Value = match std::fs::read_to_string(dir.join(format!("w{w}.json")))
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok())
            {
                Some(v) => v,
                None => continue,
            };
            st.evals += v["evals"].as_u64().unwrap_or(0);
            st.known_hits += v["known_hits"].as_u64().unwrap_or(0);
            st.max_work = st.max_work.max(v["max_work"].as_u64().unwrap_or(0));
            for (k, m) in [("labels", 0), ("discards", 1)] {
                if let Some(o) = v[k].as_object() {
                    for (l, n) in o {
                        let t = if m == 0 { &mut st.labels } else { &mut st.discards };
                        *t.entry(l.clone()).or_default() += n.as_u64().unwrap_or(0);
                    }
                }
            }
            if let Some(a) = v["samples"].as_array() {
                st.samples.extend(a.iter().filter_map(|s| s.as_str().map(String::from)));
            }
            if let Ok(b) = std::fs::read(dir.join(format!("w{w}.keys"))) {
                for c in b.chunks_exact(8) {
                    let mut k = [0u8; 8];
                    k.copy_from_slice(c);
                    st.keys.insert(u64::from_le_bytes(k));
                }
            }
            if let Some(h) = v["harness"].as_str() {
                println!("error: {h}");
                return 3;
            }
            if let Some(i) = v["fail_index"].as_u64() {
                let m = v["fail_msg"].as_str().unwrap_or("").to_string();
                if fail.as_ref().map_or(true, |(j, _)| i < *j) {
                    fail = Some((i, m));
                }
            }
        }
        for (w, e) in crashed {
            let idx = sh.cell(1 + w).load(Relaxed);
            match e {
                End::Signal(libc::SIGKILL) | End::Code(_) => {
                    let c = if let End::Code(c) = e { c } else { -9 };
                    println!("error: worker {w} ended unexpectedly ({c}) at case {idx}");
                    return 3;
                }
                _ => {
                    let m = match e {
                        End::Work => "exceeded the work budget".to_string(),
                        End::Signal(s) => format!("crashed with signal {s}"),
                        _ => String::new(),
                    };
                    if fail.as_ref().map_or(true, |(j, _)| idx < *j) {
                        fail = Some((idx, m));
                    }
                }
            }
        }
    }
    if let Some((idx, m0)) = fail {
        let mut b = vec![];
        case_bytes(o.seed, stream(p.id), idx, &mut b);
        let (orig, _) = gen_case(p, &b, o.tier);
        println!("case {idx} fails: {} -- {m0}", orig.text());
        match eval_isolated(p, &orig, &file, 300) {
            Res::Fail(m) => {
                let mut msg = m;
                let c = shrink(p, &b, o.tier, dir, &mut msg);
                println!("shrunk: {} -- {msg}", c.text());
                let path = write_replay(
                    &o.root,
                    p,
                    &c,
                    &msg,
                    json!({"seed": o.seed, "index": idx, "case": orig.text()}),
                );
                violations.push((path, msg));
            }
            r => {
                println!("error: the failure did not reproduce in isolation: {r:?}");
                return 3;
            }
        }
    }

    // 3. evidence
    st.samples.truncate(12);
    let cov = json!({
        "evaluations": st.evals + regr_run,
        "distinct_nontrivial": st.keys.len(),
        "rule": p.rule,
        "samples": st.samples,
        "classes": st.labels,
        "discarded": st.discards,
        "regression_cases": regr_run,
        "known_finding_cases": known.len(),
        "most_allocations_in_one_case": st.max_work,
        "allocation_limit": WORK_LIMIT,
        "workers": nw,
        "notes": notes,
    });
    let ev = json!({
        "property": p.id,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let edir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if std::fs::write(
        edir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap_or_default(),
    )
    .is_err()
    {
        println!("error: cannot write the evidence file");
        return 3;
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, discarded {:?}, max work {}, {:.1} s",
        p.id,
        st.evals,
        st.keys.len(),
        st.discards,
        st.max_work,
        t0.elapsed().as_secs_f64()
    );
    println!("  classes {:?}", st.labels);
    if violations.is_empty() {
        0
    } else {
        for (path, _) in &violations {
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        1
    }
}

pub fn stream(id: &str) -> u64 {
    id.bytes().fold(11u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))
}

#[allow(clippy::too_many_arguments)]
fn worker(
    p: &Prop,
    o: &Opts,
    w: usize,
    nw: usize,
    total: u64,
    sh: &Shared,
    known: &HashSet<u64>,
    out: &Path,
    keysf: &Path,
) {
    let mut st = Stats::default();
    let mut buf = vec![];
    let mut fail: Option<(u64, String)> = None;
    let mut harness: Option<String> = None;
    let mut many: Vec<(u64, usize, String)> = vec![];
    let mut i = w as u64;
    while i < total {
        if !o.keep_going && i > sh.cell(0).load(Relaxed) {
            break;
        }
        sh.cell(1 + w).store(i, Relaxed);
        case_bytes(o.seed, stream(p.id), i, &mut buf);
        let mut cx = Cx::default();
        start_case_meter();
        let c = match catch_unwind(AssertUnwindSafe(|| gen_case(p, &buf, o.tier))) {
            Ok((c, _)) => c,
            Err(_) => {
                let m = PANIC.lock().ok().and_then(|mut g| g.take());
                harness = Some(format!("generator panic {m:?} at case {i}"));
                break;
            }
        };
        let r = run_case(p, &c, &mut cx);
        let work = stop_case_meter();
        st.max_work = st.max_work.max(work);
        st.evals += 1;
        match r {
            Res::Pass => {
                for l in cx.labels.drain(..) {
                    *st.labels.entry(l.into()).or_default() += 1;
                }
                if cx.nontrivial {
                    st.keys.insert(c.key());
                    if st.samples.len() < 3 && i > 40 {
                        st.samples.push(c.text().chars().take(400).collect());
                    }
                }
            }
            Res::Discard(m) => *st.discards.entry(m).or_default() += 1,
            Res::Fail(m) => {
                if known.contains(&c.key()) {
                    st.known_hits += 1;
                } else if o.keep_going {
                    many.push((i, c.text().len(), format!("{} -- {m}", c.text())));
                    fail.get_or_insert((i, m));
                } else {
                    sh.cell(0).fetch_min(i, Relaxed);
                    fail = Some((i, m));
                    break;
                }
            }
            Res::Harness(m) => {
                harness = Some(format!("{m}; case {i}: {}", c.text()));
                break;
            }
        }
        i += nw as u64;
    }
    if o.keep_going {
        many.sort_by_key(|m| m.1);
        println!("worker {w}: {} failures", many.len());
        for m in many.iter().take(6) {
            println!("  [{}] {}", m.0, m.2.chars().take(700).collect::<String>());
        }
    }
    let v = json!({
        "evals": st.evals, "labels": st.labels, "discards": st.discards,
        "max_work": st.max_work, "samples": st.samples, "known_hits": st.known_hits,
        "fail_index": fail.as_ref().map(|f| f.0), "fail_msg": fail.as_ref().map(|f| f.1.clone()),
        "harness": harness,
    });
    let mut kb = Vec::with_capacity(st.keys.len() * 8);
    for k in &st.keys {
        kb.extend_from_slice(&k.to_le_bytes());
    }
    let _ = std::fs::write(keysf, kb);
    let _ = std::fs::write(out, v.to_string());
}
