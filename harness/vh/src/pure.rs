//! C20: purity. Purely differential: the answer of an operation run as the first thing in a
//! process of its own, against its answers after, between and beside many other operations.
//! This process itself never calls the code under test, so every forked child starts pristine.
use crate::util::*;
use ronda::verif_hooks::{Spec, VersionSpec};
use ronda::{untreeify, CompOp, ConstraintTree, Version, VersionSpecOrConstraintTree};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};
use vcore::gen;
use vcore::runner::Plan;
use vcore::spec;
use vcore::{Prop, Src, Stats};

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Op {
    /// version
    Parse(usize),
    /// versions
    Compare(usize, usize),
    Prefix(usize, usize),
    Evaluate(usize, usize, u8),
    /// constraint
    Read(usize),
    /// constraint, version
    Accepts(usize, usize),
    Same(usize, usize),
    /// constraint, version: by text, whether it is one or not
    ByText(usize, usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Hist {
    pub versions: Vec<String>,
    pub constraints: Vec<String>,
    pub ops: Vec<Op>,
    /// indices into ops
    pub order: Vec<usize>,
    pub rounds: u32,
    pub threads: u8,
    /// operations on other values first
    pub filler: u32,
    /// work on values built once instead of building them for each operation
    pub keep: bool,
}

// ---- is a type shareable between threads? (harness stays buildable either way) ----

struct Probe<T>(PhantomData<T>);
trait Fallback {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Fallback for Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}

struct Pool {
    versions: Vec<Option<Version>>,
    constraints: Vec<Cons>,
}
struct Cons {
    simple: Option<VersionSpec>,
    any: Option<VersionSpecOrConstraintTree>,
    tree: Option<ConstraintTree>,
}
struct Share(Pool);
unsafe impl Sync for Share {}
unsafe impl Send for Share {}

fn can_share() -> bool {
    Probe::<Version>(PhantomData).shareable()
        && Probe::<VersionSpec>(PhantomData).shareable()
        && Probe::<VersionSpecOrConstraintTree>(PhantomData).shareable()
        && Probe::<ConstraintTree>(PhantomData).shareable()
}

fn cons(t: &str) -> Cons {
    Cons { simple: vspec(t).ok(), any: vsoct(t).ok(), tree: tree(t).ok() }
}

fn pool(c: &Hist) -> Pool {
    Pool { versions: c.versions.iter().map(|t| parse(t)).collect(), constraints: c.constraints.iter().map(|t| cons(t)).collect() }
}

/// Everything visible of the pooled values.
fn snapshot(p: &Pool) -> String {
    let vs: Vec<String> = p.versions.iter().map(|v| v.as_ref().map_or("-".into(), |v| format!("{:?} {}", v, v.as_str()))).collect();
    let cs: Vec<String> = p
        .constraints
        .iter()
        .map(|c| {
            format!(
                "{:?} {:?} {:?}",
                c.simple.as_ref().map(|c| (c.get_spec(), c.is_exact())),
                c.any.as_ref().map(|c| (c.get_spec(), c.is_exact(), format!("{:?}", c))),
                c.tree.as_ref().map(|c| (c.get_spec(), format!("{:?} {:#?}", c, c)))
            )
        })
        .collect();
    format!("{:?} {:?}", vs, cs)
}

fn show<T: Spec>(r: &Result<T, String>) -> String {
    match r {
        Ok(c) => format!("ok {:?} {} {:?}", c.get_spec(), c.is_exact(), c.exact_value()),
        Err(e) => format!("refused {}", e),
    }
}

fn answer(c: &Hist, op: &Op, pool: Option<&Pool>) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        // borrowed from the pool, or built here
        let made_v: Vec<Option<Version>>;
        let made_c: Vec<Cons>;
        let (vi, ci): (Vec<usize>, Vec<usize>) = match op {
            Op::Parse(_) | Op::Read(_) => (vec![], vec![]),
            Op::Compare(i, j) | Op::Prefix(i, j) | Op::Evaluate(i, j, _) => (vec![*i, *j], vec![]),
            Op::Accepts(i, j) => (vec![*j], vec![*i]),
            Op::Same(i, j) => (vec![], vec![*i, *j]),
            Op::ByText(i, _) => (vec![], vec![*i]),
        };
        let (vs, cs): (Vec<Option<&Version>>, Vec<&Cons>) = match pool {
            Some(p) => (vi.iter().map(|i| p.versions[*i].as_ref()).collect(), ci.iter().map(|i| &p.constraints[*i]).collect()),
            None => {
                made_v = vi.iter().map(|i| parse(&c.versions[*i])).collect();
                made_c = ci.iter().map(|i| cons(&c.constraints[*i])).collect();
                (made_v.iter().map(|v| v.as_ref()).collect(), made_c.iter().collect())
            }
        };
        if vs.iter().any(|v| v.is_none()) {
            return "no version".to_string();
        }
        let v = |i: usize| vs[i].unwrap();
        match op {
            Op::Parse(i) => match c.versions[*i].parse::<Version>() {
                Ok(v) => format!("{:?} {:?}", v, v.as_str()),
                Err(e) => format!("refused {:?}", e),
            },
            Op::Compare(_, j) => {
                let (a, b) = (v(0), v(1));
                format!(
                    "{:?} {:?} {} {} {} {} {} {} {:?}",
                    a.compare_version(b), a.partial_cmp(b), a == b, a != b, a < b, a <= b, a > b, a >= b,
                    a.compare_str(&c.versions[*j])
                )
            }
            Op::Prefix(_, _) => format!("{}", v(0).startswith(v(1))),
            Op::Evaluate(_, j, k) => {
                let o: CompOp = ALL[*k as usize % ALL.len()].clone();
                format!("{:?} {:?}", v(0).compare_to_version(v(1), &o), v(0).compare_to_str(&c.versions[*j], &o))
            }
            Op::Read(i) => {
                let t = &c.constraints[*i];
                let x = vsoct(t);
                let p = x.as_ref().ok().map(untreeify);
                format!("{} / {} {:?} / {}", show(&vspec(t)), show(&x), p, show(&tree(t)))
            }
            Op::Accepts(_, j) => {
                let (k, t) = (cs[0], &c.versions[*j]);
                format!(
                    "{:?} {:?} {:?}",
                    k.simple.as_ref().map(|k| (k.test_match_version(v(0)), k.test_match(t))),
                    k.any.as_ref().map(|k| (k.test_match_version(v(0)), k.test_match(t))),
                    k.tree.as_ref().map(|k| (k.test_match_version(v(0)), k.test_match(t)))
                )
            }
            Op::ByText(_, j) => {
                // these panic on a text that is no version: an answer like any other
                let (k, t) = (cs[0], &c.versions[*j]);
                let try_it = |f: &dyn Fn() -> Option<bool>| catch_unwind(AssertUnwindSafe(f)).map_or("panic".to_string(), |b| format!("{:?}", b));
                let one = Version::from("1");
                format!(
                    "{} {} {} {} {}",
                    try_it(&|| k.simple.as_ref().map(|k| k.test_match(t))),
                    try_it(&|| k.any.as_ref().map(|k| k.test_match(t))),
                    try_it(&|| k.tree.as_ref().map(|k| k.test_match(t))),
                    try_it(&|| Some(one.compare_str(t) == CompOp::Lt)),
                    try_it(&|| Some(Version::from(&t[..]) < one))
                )
            }
            Op::Same(_, _) => {
                let (a, b) = (cs[0], cs[1]);
                format!("{} {} {}", a.simple == b.simple, a.any == b.any, a.tree == b.tree)
            }
        }
    }));
    match r {
        Ok(t) => t,
        Err(_) => "panic".to_string(),
    }
}

// ---- processes ----

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// Run `f` in a child of its own and bring back its text.
fn child(f: impl FnOnce() -> String) -> Result<String, i32> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("HARNESS pipe");
        }
        let pid = fork();
        if pid < 0 {
            panic!("HARNESS fork");
        }
        if pid == 0 {
            close(fds[0]);
            alarm(120);
            let t = f();
            let b = t.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = write(fds[1], b[o..].as_ptr(), b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            _exit(0)
        }
        close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 {
            Ok(String::from_utf8_lossy(&out).into_owned())
        } else {
            Err(st & 0x7f)
        }
    }
}

// ---- very many different operations ----

/// The texts of the i-th operation on other values: versions, and a constraint or none. Most have
/// the same length as many others.
fn item_texts(c: &Hist, i: u32) -> (Vec<String>, Option<String>) {
    let near = &c.versions[i as usize % c.versions.len()];
    let m = vcore::src::mix(u64::from(i / 8), u64::from(c.rounds) + 77);
    let (x, y, z) = (m % 100, (m >> 8) % 100, (m >> 16) % 100);
    let plain = format!("{:02}.{:02}.{:02}", x, y, z);
    let few = i < 6000;
    match i % 8 {
        0 => (vec![format!("{}.{}", near, i)], None),
        1 => (vec![format!("{}a{}", i, i % 7), format!("{}A{}", i, i % 7)], None),
        2 => (vec![format!("{}.{}.{}", i % 13, i / 13, i % 5), plain], None),
        3 => (vec![format!("{}{}", i, near), near.clone()], None),
        4 if few => (vec![plain.clone(), format!("{:02}.{:02}.{:02}", x, z, y)], Some(format!("{:02}*{:02}", x, z))),
        5 if few => (vec![plain.clone(), format!("{:02}.{:02}.{:02}", y, x, z)], Some(format!("{}{}", ["<=", ">=", "==", "!="][(m >> 24) as usize % 4], plain))),
        6 if few => (vec![plain.clone(), near.clone()], Some(format!("(>{:02},<{:02})|{:02}.{:02}*", x, y, z, x))),
        7 if few => (vec![plain.clone(), format!("{:02}.{:02}", z, x)], Some(format!("^.*[{}{}{}]$", x % 10, y % 10, z % 10))),
        _ => (vec![plain, format!("{:02}rc{:02}.{:02}", z, x, y)], None),
    }
}

fn item(c: &Hist, i: u32) -> u64 {
    let (vs, k) = item_texts(c, i);
    let t = catch_unwind(AssertUnwindSafe(|| {
        let mut o = String::new();
        let vs: Vec<Version> = vs.iter().filter_map(|t| parse(t)).collect();
        for a in &vs {
            o += &format!("{:?} {} ", a, a.as_str());
        }
        for a in vs.iter().skip(1) {
            o += &format!("{:?} {} {} ", vs[0].compare_version(a), vs[0].startswith(a), vs[0].compare_to_version(a, &CompOp::Ge));
        }
        if let Some(k) = k {
            let x = cons(&k);
            for a in &vs {
                o += &format!("{:?} {:?} ", x.simple.as_ref().map(|k| k.test_match_version(a)), x.any.as_ref().map(|k| k.test_match_version(a)));
            }
            o += &x.any.as_ref().map_or("-".into(), |k| k.get_spec());
        }
        o
    }))
    .unwrap_or_else(|_| "panic".into());
    t.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

/// The answers of all items, asked in one order, on one thread or some.
fn items(c: &Hist, backwards: bool, threads: u32) -> String {
    let n = c.filler;
    let mut all = vec![0u64; n as usize];
    if threads <= 1 {
        for k in 0..n {
            let i = if backwards { n - 1 - k } else { k };
            all[i as usize] = item(c, i);
        }
    } else {
        let case = Arc::new(c.clone());
        let barrier = Arc::new(Barrier::new(threads as usize));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (case, barrier) = (case.clone(), barrier.clone());
                std::thread::spawn(move || {
                    barrier.wait();
                    (0..n).rev().filter(|i| i % threads == t).map(|i| (i, item(&case, i))).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for (i, a) in h.join().unwrap_or_default() {
                all[i as usize] = a;
            }
        }
    }
    let mut o = String::with_capacity(all.len() * 9);
    for a in all {
        o += &format!("{:x} ", a);
    }
    o
}

/// The first item whose answer depends on the order in which all are asked.
fn order_matters(c: &Hist) -> Result<(), String> {
    let other = u32::from(c.threads.max(1));
    let ways = [child(|| items(c, false, 1)), child(|| items(c, true, other))];
    match &ways {
        [Ok(a), Ok(b)] => match a.split(' ').zip(b.split(' ')).position(|(a, b)| a != b) {
            None => Ok(()),
            Some(i) => Err(format!(
                "the answers on {:?} are not the same when {} operations on different values run in opposite orders (second time on {} thread(s))",
                item_texts(c, i as u32), c.filler, other
            )),
        },
        _ => Err(format!("{} operations on different values end the process with a signal", c.filler)),
    }
}

/// What went wrong in a history, or nothing.
fn run_history(c: &Hist, want: &[String]) -> String {
    for i in 0..c.filler {
        // other values, many of them close to the ones of the case
        let _ = item(c, i);
    }
    let failure: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let share = can_share();
    let kept: Option<Arc<Share>> = if c.keep { catch_unwind(AssertUnwindSafe(|| Arc::new(Share(pool(c))))).ok() } else { None };
    let before = kept.as_ref().map(|p| snapshot(&p.0));
    let nthreads = c.threads.max(1) as usize;
    let case = Arc::new(c.clone());
    let want: Arc<Vec<String>> = Arc::new(want.to_vec());
    let go = |k: usize, kept: Option<&Pool>, case: &Hist, want: &[String], failure: &Mutex<Option<String>>| {
        let n = case.order.len();
        for round in 0..case.rounds {
            for step in 0..n {
                let i = if round % 2 == 1 { n - 1 - step } else { step };
                let i = case.order[(i + k) % n];
                let got = answer(case, &case.ops[i], kept);
                if got != want[i] {
                    let mut f = failure.lock().unwrap_or_else(|e| e.into_inner());
                    if f.is_none() {
                        *f = Some(format!(
                            "{} answers {:?} after other operations (round {}, step {}, {} thread(s)), and {:?} as the first operation of a process",
                            describe(case, &case.ops[i]), got, round, step, case.threads.max(1), want[i]
                        ));
                    }
                    return;
                }
            }
        }
    };
    if nthreads == 1 {
        go(0, kept.as_ref().map(|p| &p.0), c, &want, &failure);
    } else {
        let barrier = Arc::new(Barrier::new(nthreads));
        let mut hs = vec![];
        for k in 0..nthreads {
            let (barrier, failure, case, want) = (barrier.clone(), failure.clone(), case.clone(), want.clone());
            let kept = if share { kept.clone() } else { None };
            hs.push(std::thread::spawn(move || {
                let own = if kept.is_none() && case.keep { catch_unwind(AssertUnwindSafe(|| pool(&case))).ok() } else { None };
                barrier.wait();
                let p = kept.as_ref().map(|p| &p.0).or(own.as_ref());
                go(k, p, &case, &want, &failure);
            }));
        }
        for h in hs {
            let _ = h.join();
        }
    }
    if let (Some(p), Some(b)) = (&kept, before) {
        let after = snapshot(&p.0);
        if after != b {
            return format!("evaluating changed a value: {} became {}", b, after);
        }
    }
    let mut f = failure.lock().unwrap_or_else(|e| e.into_inner());
    f.take().unwrap_or_default()
}

fn describe(c: &Hist, op: &Op) -> String {
    let v = |i: &usize| format!("{:?}", c.versions[*i]);
    let k = |i: &usize| format!("{:?}", c.constraints[*i]);
    match op {
        Op::Parse(i) => format!("parsing {}", v(i)),
        Op::Compare(i, j) => format!("comparing {} with {}", v(i), v(j)),
        Op::Prefix(i, j) => format!("whether {} starts with {}", v(i), v(j)),
        Op::Evaluate(i, j, o) => format!("{} {:?} {}", v(i), ALL[*o as usize % ALL.len()], v(j)),
        Op::Read(i) => format!("reading the constraint {}", k(i)),
        Op::Accepts(i, j) => format!("testing {} against {}", k(i), v(j)),
        Op::ByText(i, j) => format!("testing {} against the text {}", k(i), v(j)),
        Op::Same(i, j) => format!("whether {} and {} are equal", k(i), k(j)),
    }
}

/// Texts easily confused with `t` by a careless cache key.
fn lookalike(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    match s.below(10) {
        7 | 8 if cs.len() > 1 => {
            // equal under the usual multiply-and-add hashes, sums of characters and the like
            let i = s.below_us(cs.len() - 1);
            let m = *s.pick(&[31i32, 31, 33, 1, 0, 2, 3, 5, 7, 13, 17, 37]);
            let j = if m <= 1 { i + 1 + s.below_us(cs.len() - 1 - i) } else { i + 1 };
            let (a, b) = if s.chance(1, 2) { (1, -m) } else { (-1, m) };
            let x = std::char::from_u32((cs[i] as i32 + a).max(33) as u32).unwrap_or('x');
            let y = std::char::from_u32((cs[j] as i32 + b).max(33) as u32).unwrap_or('x');
            cs[i] = x;
            cs[j] = y;
            cs.into_iter().collect()
        }
        9 => {
            // the same at both ends
            let i = s.below_us(cs.len() + 1);
            let k = *s.pick(&['0', '1', 'a', '.']);
            cs.insert(i, k);
            cs.into_iter().collect()
        }
        0 => gen::recase(s, t),
        1 if cs.len() > 1 => {
            // same characters in another order
            let i = s.below_us(cs.len());
            let j = s.below_us(cs.len());
            cs.swap(i, j);
            cs.into_iter().collect()
        }
        2 if !cs.is_empty() => {
            // same length, one character apart
            let i = s.below_us(cs.len());
            cs[i] = *s.pick(&['0', '1', '9', 'a', 'b', '.', '-', '_']);
            cs.into_iter().collect()
        }
        3 => format!("{}{}", t, s.pick(&["0", ".0", "1", "a", " ", ".", "+", "_"])),
        4 if !cs.is_empty() => {
            cs.pop();
            cs.into_iter().collect()
        }
        5 => t.replace('.', s.pick(&["-", "_", ".."])),
        _ => spec::near_text(s, t),
    }
}

pub struct C20;

impl Prop for C20 {
    type Case = Hist;
    const ID: &'static str = "C20";
    const RULE: &'static str = "a case is a set of operations and a history over them; every operation's answer is first taken in a pristine process of its own, then compared with each of its answers within the history; non-trivial if the history has at least two different operations; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 2_000_000, guided: 0 }
        } else {
            Plan { random: 16_000, guided: 0 }
        }
    }
    fn gen(&self, s: &mut Src) -> Hist {
        let mut versions = vec![gen::version(s)];
        while s.more(versions.len(), 1, 6, 3, 4) {
            let t = s.pick(&versions).clone();
            versions.push(match s.weighted(&[12, 2, 2, 1]) {
                0 => lookalike(s, &t),
                1 => gen::version(s),
                2 => gen::text(s),
                _ => format!("{}{}{}", s.pick(&["1!2!", "a!", "+", ""]), t, s.pick(&["+1+", "!!", "+", ""])),
            });
        }
        let one = |s: &mut Src, versions: &[String]| -> String {
            let v = s.pick(versions).clone();
            match s.weighted(&[6, 2, 2, 2, 1]) {
                0 if !v.is_empty() => spec::simple_on(s, v).text,
                1 if !v.is_empty() => spec::glob(s, &v).text,
                2 => spec::regex(s).text,
                3 => {
                    let x = spec::expr(s, &mut |s| if s.chance(1, 2) { spec::simple(s) } else { let v = gen::parsable(s.pick(versions).clone()); if v.is_empty() || v.contains(|c: char| "()|,^$ ".contains(c)) { spec::simple(s) } else { spec::simple_on(s, v) } });
                    let loose = s.chance(1, 2);
                    spec::spell(s, &x, loose)
                }
                _ => crate::cons::wild(s),
            }
        };
        let mut constraints = vec![one(s, &versions)];
        while s.more(constraints.len(), 1, 5, 2, 3) {
            let t = s.pick(&constraints).clone();
            constraints.push(if s.chance(1, 2) { lookalike(s, &t) } else { one(s, &versions) });
        }
        // one text long enough to matter is enough: keep the answers short
        for t in versions.iter_mut().chain(constraints.iter_mut()) {
            if t.chars().count() > 400 {
                *t = t.chars().take(400).collect();
            }
        }
        let (nv, nc) = (versions.len(), constraints.len());
        let mut ops: Vec<Op> = vec![];
        while s.more(ops.len(), 2, 10, 4, 5) {
            let i = s.below_us(nv);
            let j = s.below_us(nv);
            let k = s.below_us(nc);
            let l = s.below_us(nc);
            let o = match s.weighted(&[3, 4, 2, 2, 3, 5, 1, 2]) {
                0 => Op::Parse(i),
                1 => Op::Compare(i, j),
                2 => Op::Prefix(i, j),
                3 => Op::Evaluate(i, j, s.below(10) as u8),
                4 => Op::Read(k),
                5 => Op::Accepts(k, i),
                6 => Op::Same(k, l),
                _ => Op::ByText(k, i),
            };
            ops.push(o);
        }
        let mut order = vec![];
        while s.more(order.len(), ops.len(), 24, 3, 4) {
            order.push(s.below_us(ops.len()));
        }
        Hist {
            versions,
            constraints,
            ops,
            order,
            rounds: [1u32, 2, 8, 64][s.weighted(&[10, 8, 5, 2])],
            threads: [1u8, 2, 4, 8][s.weighted(&[12, 3, 3, 1])],
            filler: [0u32, 50, 3000, 70_000][s.weighted(&[200, 60, 8, 1])],
            keep: s.chance(1, 2),
        }
    }
    fn check(&self, c: &Hist, st: &mut Stats) -> Result<(), String> {
        let mut want: Vec<String> = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            if let Some(j) = c.ops[..i].iter().position(|o| o == op) {
                let w = want[j].clone();
                want.push(w);
                continue;
            }
            match child(|| answer(c, op, None)) {
                Ok(t) => want.push(t),
                Err(sig) => return Err(format!("{} ends the process with signal {}", describe(c, op), sig)),
            }
        }
        if c.filler > 0 {
            order_matters(c)?;
        }
        match child(|| run_history(c, &want)) {
            Ok(t) if t.is_empty() => {}
            Ok(t) => return Err(t),
            Err(sig) => return Err(format!("the history {:?} ends the process with signal {} (each operation alone does not)", c.ops, sig)),
        }
        st.nontrivial_if(c.order.iter().any(|i| c.ops[*i] != c.ops[c.order[0]]));
        st.label_if(c.threads > 1, "several threads");
        st.label_if(c.threads > 1 && c.keep && can_share(), "values shared between threads");
        st.label_if(c.keep, "values kept across operations");
        st.label_if(c.rounds > 2, "repeated many times");
        st.label_if(c.filler > 0, "after unrelated operations");
        st.label_if(want.iter().any(|w| w.starts_with("refused") || w == "panic"), "with refusals");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["thread schedules are whatever the operating system produces (up to 8 threads started on a barrier)".into()]
    }
}
