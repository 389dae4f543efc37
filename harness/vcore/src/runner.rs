//! Sharded, deterministic runner. The parent spawns one process per shard; a shard that dies
//! (abort, stack overflow) is a finding too, because every case is announced before it runs.
use crate::cov;
use crate::gen;
use crate::src::{mix, shrink, Rng, Src};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::process::{exit, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
const BITS: usize = 1 << 27;

/// What a run saw.
#[derive(Default)]
pub struct Stats {
    pub labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
}

impl Stats {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub struct Plan {
    /// random cases, coverage-guided cases: totals over all shards
    pub random: u64,
    pub guided: u64,
}

pub trait Prop {
    type Case: Serialize + DeserializeOwned + Clone + Debug + Hash;
    const ID: &'static str;
    const RULE: &'static str;
    fn plan(&self, thorough: bool) -> Plan;
    fn gen(&self, s: &mut Src) -> Self::Case;
    fn check(&self, c: &Self::Case, st: &mut Stats) -> Result<(), String>;
    /// Called once per shard before anything else.
    fn start(&self) {}
    /// Exhaustive part: this shard's share. Returns how many were checked.
    fn exhaustive(&self, _shard: u64, _shards: u64, _thorough: bool, _st: &mut Stats) -> Result<u64, (Self::Case, String)> {
        Ok(0)
    }
    fn exhaustive_scope(&self, _thorough: bool) -> Option<String> {
        None
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

/// The code under test may be running: a panic is not necessarily the harness's.
static CHECKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if !CHECKING.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("harness error: panic at {}: {}", loc, msg);
        }
        let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if p.is_none() {
            *p = Some((loc, msg));
        }
    }));
}

fn is_own(loc: &str) -> bool {
    if loc.contains("/pygen/") {
        return false;
    }
    loc.starts_with("vcore/") || loc.starts_with("vh/") || loc.starts_with("src/") || loc.contains("/verif/")
        || loc.starts_with("harness/") || loc.starts_with("vpy/") || loc.starts_with("cpython/")
}

/// Run a check; a panic of the code under test is a failure, one of the harness is an error.
pub fn guarded<P: Prop>(p: &P, c: &P::Case, st: &mut Stats) -> Result<(), String> {
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    CHECKING.store(true, std::sync::atomic::Ordering::Relaxed);
    let res = panic::catch_unwind(panic::AssertUnwindSafe(|| p.check(c, st)));
    CHECKING.store(false, std::sync::atomic::Ordering::Relaxed);
    match res {
        Ok(r) => {
            if let Err(m) = &r {
                if m.starts_with("HARNESS") {
                    eprintln!("harness error: {} on {}", m, serde_json::to_string(c).unwrap_or_default());
                    exit(4);
                }
            }
            r
        }
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
            if is_own(&loc) {
                eprintln!("harness error: panic at {}: {} on {}", loc, msg, serde_json::to_string(c).unwrap_or_default());
                exit(4);
            }
            Err(format!("panicked at {}: {}", loc, msg))
        }
    }
}

/// Run a piece of an exhaustive sweep; a panic of the code under test is an error message.
pub fn guard(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    CHECKING.store(true, std::sync::atomic::Ordering::Relaxed);
    let res = panic::catch_unwind(panic::AssertUnwindSafe(f));
    CHECKING.store(false, std::sync::atomic::Ordering::Relaxed);
    match res {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
            if is_own(&loc) {
                eprintln!("harness error: panic at {}: {}", loc, msg);
                exit(4);
            }
            Err(format!("panicked at {}: {}", loc, msg))
        }
    }
}

/// Ends the process when one case burns absurdly much processor time (normal: microseconds to
/// milliseconds). Processor time, so that a loaded machine is not mistaken for a hang.
static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
const HANG_S: i64 = 60;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

fn cpu_seconds() -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.sec
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let t = TICK.load(std::sync::atomic::Ordering::Relaxed);
            if t == last && t != 0 {
                if cpu_seconds() - since >= HANG_S {
                    eprintln!("HANG: one case ran for more than {} s of processor time", HANG_S);
                    std::process::abort();
                }
            } else {
                last = t;
                since = cpu_seconds();
            }
        }
    });
}

fn tick() {
    TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn alarm(s: u32) -> u32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn setrlimit(what: i32, r: *const Rlimit) -> i32;
}

/// A runaway allocation ends the shard, not the sandbox; no core files.
fn limits() {
    unsafe {
        setrlimit(9, &Rlimit { cur: 4 << 30, max: 4 << 30 });
        setrlimit(4, &Rlimit { cur: 0, max: 0 });
    }
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let z = self.0;
        (z ^ (z >> 29)).wrapping_mul(0x9FB2_1C65_1E98_DF25) ^ (z >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
        }
    }
}

struct Args {
    tier: String,
    seed: u64,
    scale: f64,
    dir: String,
    root: String,
}

impl Args {
    fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// Entry point of every check binary. `props` dispatches on the property id.
pub fn main_with<P: Prop>(p: P, argv: &[String], sources: &[&str]) -> ! {
    // argv: <mode> <id> ...
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0f64);
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_default();
    let a = Args { tier, seed, scale, dir, root };
    load_dict(sources);
    match argv[0].as_str() {
        "run" => parent(&p, &a),
        "shard" => shard(&p, &a, argv[2].parse().unwrap()),
        "replay" => replay(&p, &argv[2]),
        "one" => one(&p, &argv[2]),
        "show" => show(&p, &a, argv.get(2).and_then(|n| n.parse().ok()).unwrap_or(20)),
        m => {
            eprintln!("unknown mode {}", m);
            exit(2)
        }
    }
}

fn load_dict(dirs: &[&str]) {
    let mut d = gen::Dict::default();
    let mut files = vec![];
    fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let q = e.path();
                if q.is_dir() {
                    walk(&q, out);
                } else if q.extension().map_or(false, |x| x == "rs") {
                    out.push(q);
                }
            }
        }
    }
    for x in dirs {
        walk(std::path::Path::new(x), &mut files);
    }
    files.sort();
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            gen::literals(&t, &mut d);
        }
    }
    gen::set_dict(d);
}

fn share(total: u64, shard: u64) -> u64 {
    total / SHARDS + if shard < total % SHARDS { 1 } else { 0 }
}

struct Announce {
    f: std::fs::File,
}

impl Announce {
    fn new(dir: &str, shard: u64) -> Announce {
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/case.{}", dir, shard)).expect("scratch");
        Announce { f }
    }
    fn put(&self, rec: &[u64]) {
        let n = rec.len().min(200_000);
        let mut b = Vec::with_capacity(8 + n * 8);
        b.extend_from_slice(&(n as u64).to_le_bytes());
        for x in &rec[..n] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        let _ = self.f.write_at(&b, 0);
    }
}

fn read_announced(path: &str) -> Option<Vec<u64>> {
    let b = std::fs::read(path).ok()?;
    let w = |i: usize| -> Option<u64> {
        let mut x = [0u8; 8];
        x.copy_from_slice(b.get(i * 8..i * 8 + 8)?);
        Some(u64::from_le_bytes(x))
    };
    let n = w(0)? as usize;
    (1..=n).map(w).collect()
}

fn regressions<P: Prop>(p: &P, a: &Args, st: &mut Stats) -> Result<u64, (P::Case, String)> {
    let mut n = 0;
    if let Ok(t) = std::fs::read_to_string(format!("{}/regressions/{}.jsonl", a.root, P::ID)) {
        for line in t.lines().filter(|l| !l.trim().is_empty()) {
            let c: P::Case = match serde_json::from_str(line) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("harness error: bad regression case {}: {}", line, e);
                    exit(4)
                }
            };
            n += 1;
            if let Err(m) = guarded(p, &c, st) {
                return Err((c, m));
            }
        }
    }
    Ok(n)
}

fn shard<P: Prop>(p: &P, a: &Args, k: u64) -> ! {
    quiet_panics();
    limits();
    p.start();
    watchdog();
    let plan = p.plan(a.thorough());
    let nr = share((plan.random as f64 * a.scale) as u64, k);
    let ng = share((plan.guided as f64 * a.scale) as u64, k);
    let mut st = Stats::default();
    let mut bitmap = vec![0u64; BITS / 64];
    let mut samples: Vec<Value> = vec![];
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let ann = Announce::new(&a.dir, k);
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut map = cov::Map::new();
    let mut violation: Option<Value> = None;
    let mut regress = 0;
    let mut exhaustive = 0;
    let mut corpus_len = 0;

    if k == 0 {
        match regressions(p, a, &mut st) {
            Ok(n) => regress = n,
            Err((c, m)) => violation = Some(json!({"case": c, "message": m, "source": "regression"})),
        }
    }
    if violation.is_none() {
        match p.exhaustive(k, SHARDS, a.thorough(), &mut st) {
            Ok(n) => exhaustive = n,
            Err((c, m)) => violation = Some(json!({"case": c, "message": m, "source": "exhaustive"})),
        }
    }
    let base = mix(a.seed, P::ID.bytes().fold(7, |h, b| h * 131 + b as u64));
    let mut r = Rng::new(mix(base, 0x6775_6964 + k));
    let total = if violation.is_some() { 0 } else { nr + ng };
    // a slow machine explores less rather than not answering
    let budget = Duration::from_secs(if a.thorough() { 3 * 3600 } else { 300 });
    let t0 = Instant::now();
    for i in 0..total {
        if i % 64 == 0 && t0.elapsed() > budget {
            break;
        }
        let guided = i >= nr && !corpus.is_empty();
        let mut s = if guided {
            let seq = mutate_seq(&mut r, &corpus);
            Src::mutated(seq, r.next())
        } else {
            Src::random(mix(base, 1 + i * SHARDS + k))
        };
        let c = p.gen(&mut s);
        ann.put(&s.rec);
        tick();
        cov::reset();
        st.nontrivial = false;
        let res = guarded(p, &c, &mut st);
        evals += 1;
        if st.nontrivial {
            nontrivial += 1;
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            c.hash(&mut h);
            let b = h.finish() as usize % BITS;
            bitmap[b / 64] |= 1 << (b % 64);
            if samples.len() < 3 || (samples.len() < 6 && evals.is_power_of_two()) {
                samples.push(clip(json!(c)));
            }
        }
        if let Err(m) = res {
            let rec = std::mem::take(&mut s.rec);
            let mut fails = |data: &[u64]| -> Option<Vec<u64>> {
                tick();
                let mut s = Src::replay(data);
                let c = p.gen(&mut s);
                let mut st = Stats::default();
                guarded(p, &c, &mut st).err().map(|_| s.rec)
            };
            // may depend on what ran before: keep the original case then
            let v = if fails(&rec).is_some() {
                let small = shrink(rec, 4000, &mut fails);
                let mut s = Src::replay(&small);
                let c = p.gen(&mut s);
                let m = guarded(p, &c, &mut Stats::default()).err().unwrap_or(m);
                json!({"case": c, "message": m, "source": if guided {"guided"} else {"random"}, "choices": small})
            } else {
                json!({"case": c, "message": m, "source": "history", "note": "failed in the sequence of this shard, not alone", "index": i, "shard": k})
            };
            violation = Some(v);
            break;
        }
        if cov::len() > 0 && map.observe() && s.rec.len() < 4000 {
            if corpus.len() < 2000 {
                corpus.push(s.rec);
            } else {
                let j = r.below(corpus.len() as u64) as usize;
                corpus[j] = s.rec;
            }
            corpus_len = corpus.len();
        }
    }
    TICK.store(0, std::sync::atomic::Ordering::Relaxed);
    let bytes = unsafe { std::slice::from_raw_parts(bitmap.as_ptr() as *const u8, bitmap.len() * 8) };
    std::fs::write(format!("{}/bits.{}", a.dir, k), bytes).expect("scratch");
    let out = json!({
        "evaluations": evals, "nontrivial": nontrivial, "labels": st.labels, "samples": samples,
        "violation": violation, "regressions": regress, "exhaustive": exhaustive,
        "corpus": corpus_len, "edges": map.covered(), "edges_total": cov::len(),
    });
    std::fs::write(format!("{}/out.{}", a.dir, k), out.to_string()).expect("scratch");
    exit(0)
}

fn clip(v: Value) -> Value {
    let t = v.to_string();
    if t.len() > 1500 {
        let mut e = 1500;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}… ({} bytes)", &t[..e], t.len()))
    } else {
        v
    }
}

fn mutate_seq(r: &mut Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
    let mut d = corpus[r.below(corpus.len() as u64) as usize].clone();
    let k = 1 + r.below(4);
    for _ in 0..k {
        if d.is_empty() {
            break;
        }
        let i = r.below(d.len() as u64) as usize;
        match r.below(8) {
            0 | 1 => d[i] = r.next() >> r.below(60),
            2 => d[i] = r.below(8),
            3 => d[i] = d[i].wrapping_add(1 + r.below(3)),
            4 => d[i] = d[i].saturating_sub(1 + r.below(3)),
            5 => {
                let n = (1 + r.below(6) as usize).min(d.len() - i);
                d.drain(i..i + n);
            }
            6 => {
                let n = (1 + r.below(8) as usize).min(d.len() - i);
                let c: Vec<u64> = d[i..i + n].to_vec();
                for (j, x) in c.into_iter().enumerate() {
                    d.insert(i + j, x);
                }
            }
            _ => {
                let o = &corpus[r.below(corpus.len() as u64) as usize];
                if !o.is_empty() {
                    let j = r.below(o.len() as u64) as usize;
                    d.truncate(i);
                    d.extend_from_slice(&o[j..]);
                }
            }
        }
    }
    if r.below(5) == 0 {
        d.truncate(r.below(d.len() as u64 + 1) as usize);
    }
    d
}

fn self_cmd(mode: &str, id: &str, arg: &str, dir: &str) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.args(&[mode, id, arg]).env("VERIF_SCRATCH", dir).stdin(Stdio::null()).stdout(Stdio::null());
    c
}

struct Cleanup(String);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn parent<P: Prop>(p: &P, a: &Args) -> ! {
    let code = {
        // memory-backed scratch when there is one
        let name = format!("vh-{}-{}", P::ID, std::process::id());
        let mut dir = format!("/dev/shm/{}", name);
        let _ = std::fs::remove_dir_all(&dir);
        if std::fs::create_dir_all(&dir).is_err() {
            dir = format!("{}/{}", std::env::temp_dir().display(), name);
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).expect("scratch");
        }
        let _c = Cleanup(dir.clone());
        run_all(p, a, &dir)
    };
    exit(code)
}

fn run_all<P: Prop>(p: &P, a: &Args, dir: &str) -> i32 {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if a.thorough() { 4 * 3600 } else { 800 });
    let mut kids: Vec<_> = (0..SHARDS)
        .map(|k| {
            let err = std::fs::File::create(format!("{}/err.{}", dir, k)).expect("scratch");
            self_cmd("shard", P::ID, &k.to_string(), dir).stderr(err).spawn().expect("spawn")
        })
        .collect();
    let mut done: Vec<Option<std::process::ExitStatus>> = vec![None; SHARDS as usize];
    let mut stop = false;
    while done.iter().any(|d| d.is_none()) {
        for (k, kid) in kids.iter_mut().enumerate() {
            if done[k].is_none() {
                if let Ok(Some(s)) = kid.try_wait() {
                    done[k] = Some(s);
                    let found = std::fs::read_to_string(format!("{}/out.{}", dir, k)).ok()
                        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
                        .map_or(true, |v| !v["violation"].is_null());
                    stop |= found;
                }
            }
        }
        if stop || t0.elapsed() > limit {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    if stop {
        // let shards that are about to finish do so, then end the rest
        std::thread::sleep(Duration::from_millis(50));
    }
    for (k, kid) in kids.iter_mut().enumerate() {
        if done[k].is_none() {
            if let Ok(Some(s)) = kid.try_wait() {
                done[k] = Some(s);
            } else {
                let _ = kid.kill();
                let _ = kid.wait();
            }
        }
    }
    if !stop && done.iter().any(|d| d.is_none()) {
        eprintln!("ERROR property={}: no answer within the time limit", P::ID);
        return 3;
    }

    let mut violation: Option<Value> = None;
    let (mut evals, mut regress, mut exhaustive, mut corpus, mut edges, mut edges_total, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut bits = vec![0u8; BITS / 8];
    for k in 0..SHARDS as usize {
        let st = match done[k] {
            None => continue,
            Some(s) => s,
        };
        let err = std::fs::read_to_string(format!("{}/err.{}", dir, k)).unwrap_or_default();
        if st.success() {
            let v: Value = std::fs::read_to_string(format!("{}/out.{}", dir, k)).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
            if v.is_null() {
                eprintln!("ERROR property={}: shard {} left no result", P::ID, k);
                return 3;
            }
            let g = |n: &str| v[n].as_u64().unwrap_or(0);
            evals += g("evaluations");
            regress += g("regressions");
            exhaustive += g("exhaustive");
            corpus += g("corpus");
            nontriv += g("nontrivial");
            edges = edges.max(g("edges"));
            edges_total = edges_total.max(g("edges_total"));
            if let Some(m) = v["labels"].as_object() {
                for (n, x) in m {
                    *labels.entry(n.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                }
            }
            if let Some(x) = v["samples"].as_array() {
                samples.extend(x.iter().take(if k == 0 { 4 } else { 1 }).cloned());
            }
            if let Ok(b) = std::fs::read(format!("{}/bits.{}", dir, k)) {
                for (o, x) in bits.iter_mut().zip(b) {
                    *o |= x;
                }
            }
            if violation.is_none() && !v["violation"].is_null() {
                violation = Some(v["violation"].clone());
            }
        } else {
            let sig = st.signal();
            if sig == Some(9) || sig == Some(15) || sig.is_none() {
                eprintln!("ERROR property={}: shard {} ended with {:?}: {}", P::ID, k, st, err.trim());
                if violation.is_none() && !stop {
                    return 3;
                }
                if violation.is_none() {
                    // another shard may hold a violation
                    continue;
                }
                continue;
            }
            // died on a signal: abort or stack overflow in the code under test
            if violation.is_none() {
                if let Some(rec) = read_announced(&format!("{}/case.{}", dir, k)) {
                    let mut crash = |data: &[u64]| -> Option<Vec<u64>> {
                        let f = format!("{}/try.json", dir);
                        std::fs::write(&f, serde_json::to_string(data).unwrap()).expect("scratch");
                        let s = self_cmd("one", P::ID, &f, dir).stderr(Stdio::null()).status().expect("spawn");
                        match s.signal() {
                            Some(x) if x != 9 && x != 15 && x != 14 => {
                                let mut s = Src::replay(data);
                                p.gen(&mut s);
                                Some(s.rec)
                            }
                            _ => None,
                        }
                    };
                    let hang = err.contains("HANG:");
                    let alone = !hang && crash(&rec).is_some();
                    let rec = if alone { shrink(rec, 300, &mut crash) } else { rec };
                    let c = p.gen(&mut Src::replay(&rec));
                    violation = Some(json!({"case": c, "choices": rec, "source": if alone {"crash"} else {"crash in history"},
                        "message": format!("the process died with signal {:?}: {}", sig, err.trim().lines().last().unwrap_or(""))}));
                }
            }
        }
    }
    let distinct: u64 = bits.iter().map(|b| b.count_ones() as u64).sum();
    let mut ev = json!({
        "property": P::ID, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals + regress + exhaustive,
            "distinct_nontrivial": distinct,
            "nontrivial_evaluations": nontriv,
            "rule": P::RULE,
            "samples": samples,
            "labels": labels,
            "generated_cases": evals,
            "regression_cases": regress,
            "exhaustively_enumerated": exhaustive,
            "guided_corpus_entries": corpus,
            "library_edges_covered": edges,
            "library_edges_instrumented": edges_total,
        },
        "assumptions": p.assumptions(),
        "violations": if violation.is_some() {1} else {0},
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
    });
    if let Some(sc) = p.exhaustive_scope(a.thorough()) {
        ev["coverage"]["exhaustive_scope"] = Value::String(sc);
    }
    let edir = format!("{}/evidence", a.root);
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(format!("{}/{}.json", edir, P::ID), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    match violation {
        Some(v) => {
            let rdir = format!("{}/replays", edir);
            let _ = std::fs::create_dir_all(&rdir);
            let path = format!("{}/{}.json", rdir, P::ID);
            let body = json!({"property": P::ID, "case": v["case"], "message": v["message"], "source": v["source"], "seed": a.seed, "tier": a.tier, "note": v["note"], "index": v["index"], "shard": v["shard"]});
            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n").expect("replay");
            println!("{}", v["message"].as_str().unwrap_or(""));
            println!("case: {}", clip(v["case"].clone()));
            println!("VIOLATION property={} replay={}", P::ID, path);
            let _ = std::io::stdout().flush();
            1
        }
        None if stop => {
            eprintln!("ERROR property={}: a shard ended abnormally", P::ID);
            3
        }
        None => {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} edges={}/{} wall={:.1}s",
                P::ID, evals + regress + exhaustive, distinct, edges, edges_total, t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}

fn replay<P: Prop>(p: &P, path: &str) -> ! {
    quiet_panics();
    p.start();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let c: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    match guarded(p, &c, &mut Stats::default()) {
        Ok(()) => {
            println!("OK: the case passes");
            exit(0)
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", P::ID, path);
            exit(1)
        }
    }
}

fn one<P: Prop>(p: &P, path: &str) -> ! {
    quiet_panics();
    limits();
    unsafe { alarm(30) };
    p.start();
    let d: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(path).expect("file")).expect("json");
    let c = p.gen(&mut Src::replay(&d));
    match guarded(p, &c, &mut Stats::default()) {
        Ok(()) => exit(0),
        Err(_) => exit(1),
    }
}

fn show<P: Prop>(p: &P, a: &Args, n: u64) -> ! {
    let base = mix(a.seed, 99);
    for i in 0..n {
        println!("{}", serde_json::to_string(&p.gen(&mut Src::random(mix(base, i)))).unwrap());
    }
    exit(0)
}
