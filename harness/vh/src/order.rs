//! C01-C05: the order of versions and the operators.
use crate::ensure;
use crate::util::*;
use ronda::{CompOp, Version};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use vcore::gen;
use vcore::model::{self, Tok, OPS};
use vcore::runner::{guard, Plan};
use vcore::{Prop, Src, Stats};

fn has(t: &str, w: &str) -> bool {
    t.to_ascii_lowercase().contains(w)
}

fn label_version(st: &mut Stats, t: &str) {
    st.label_if(t.contains('!'), "epoch");
    st.label_if(t.contains('+'), "local label");
    st.label_if(has(t, "dev"), "dev tag");
    st.label_if(has(t, "post"), "post tag");
    st.label_if(!t.is_ascii(), "non-ASCII");
}

// ---- C01 ----

pub struct C01;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Family {
    pub versions: Vec<String>,
}

impl Prop for C01 {
    type Case = Family;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a case is a list of version texts; non-trivial if at least three are distinct texts and at least two different outcomes (less/equal/greater) occur among pairs of distinct texts; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 20_000_000, guided: 8_000_000 }
        } else {
            Plan { random: 500_000, guided: 150_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Family {
        let long = s.chance(1, 12);
        let mut v = gen::family(s, 3, if long { 40 } else { 7 });
        if s.chance(1, 4) {
            for t in v.iter_mut() {
                if s.chance(1, 2) {
                    *t = gen::parsable(gen::widen(s, t));
                }
            }
        }
        Family { versions: v }
    }
    fn check(&self, c: &Family, st: &mut Stats) -> Result<(), String> {
        let vs: Vec<Version> = c.versions.iter().filter_map(|t| parse(t)).collect();
        let n = vs.len();
        let mut m = vec![0i8; n * n];
        for i in 0..n {
            for j in 0..n {
                m[i * n + j] = three(&vs[i], &vs[j])?;
            }
        }
        let name = |i: usize| vs[i].as_str();
        for i in 0..n {
            ensure!(m[i * n + i] == 0, "{:?} is {} itself", name(i), word(m[i * n + i]));
            for j in 0..n {
                let x = m[i * n + j];
                ensure!(x == -m[j * n + i], "{:?} is {} {:?}, but swapped it is {}", name(i), word(x), name(j), word(m[j * n + i]));
                let (lt, eq, gt) = (vs[i] < vs[j], vs[i] == vs[j], vs[i] > vs[j]);
                ensure!(
                    lt as u8 + eq as u8 + gt as u8 == 1,
                    "{:?} and {:?}: less {}, equal {}, greater {}", name(i), name(j), lt, eq, gt
                );
            }
        }
        for i in 0..n {
            for j in 0..n {
                if m[i * n + j] > 0 {
                    continue;
                }
                for k in 0..n {
                    if m[j * n + k] > 0 {
                        continue;
                    }
                    let want = if m[i * n + j] < 0 || m[j * n + k] < 0 { -1 } else { 0 };
                    ensure!(
                        m[i * n + k] == want,
                        "not transitive: {:?} is {} {:?}, which is {} {:?}, but {:?} is {} {:?}",
                        name(i), word(m[i * n + j]), name(j), word(m[j * n + k]), name(k), name(i), word(m[i * n + k]), name(k)
                    );
                }
            }
        }
        // sorting from several starting orders
        let mut first: Option<Vec<Version>> = None;
        for round in 0..3 {
            let mut l = vs.clone();
            match round {
                0 => {}
                1 => l.reverse(),
                _ => {
                    let k = n / 2;
                    l.rotate_left(k);
                }
            }
            let mut bad = None;
            l.sort_by(|a, b| {
                a.partial_cmp(b).unwrap_or_else(|| {
                    bad = Some((a.as_str().to_string(), b.as_str().to_string()));
                    Ordering::Equal
                })
            });
            if let Some((a, b)) = bad {
                return Err(format!("{:?} and {:?} cannot be ordered", a, b));
            }
            for w in l.windows(2) {
                ensure!(three(&w[0], &w[1])? <= 0, "the sorted list has {:?} before {:?}", w[0].as_str(), w[1].as_str());
            }
            let mut x: Vec<&str> = l.iter().map(|v| v.as_str()).collect();
            let mut y: Vec<&str> = vs.iter().map(|v| v.as_str()).collect();
            x.sort();
            y.sort();
            ensure!(x == y, "the sorted list {:?} is no permutation of {:?}", x, y);
            match &first {
                None => first = Some(l),
                Some(f) => {
                    for (p, q) in f.iter().zip(&l) {
                        ensure!(
                            three(p, q)? == 0,
                            "sorting the same versions from another starting order puts {:?} where {:?} was", q.as_str(), p.as_str()
                        );
                    }
                }
            }
        }
        let mut seen = [false; 3];
        for i in 0..n {
            for j in i + 1..n {
                if name(i) != name(j) {
                    seen[(m[i * n + j] + 1) as usize] = true;
                }
            }
        }
        let mut texts: Vec<&str> = vs.iter().map(|v| v.as_str()).collect();
        texts.sort();
        texts.dedup();
        st.nontrivial_if(texts.len() >= 3 && seen.iter().filter(|x| **x).count() >= 2);
        st.label_if(seen[1], "equal but differently spelled");
        st.label_if(n > 10, "long list");
        for t in &texts {
            label_version(st, t);
        }
        Ok(())
    }
}

// ---- C02 ----

pub struct C02;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Spelling {
    pub a: String,
    pub b: String,
    pub other: String,
}

/// Spell a structure with every freedom the property names.
fn respell(s: &mut Src, v: &gen::Vs, zeros: bool) -> String {
    let mut o = String::new();
    if let Some(e) = v.epoch {
        o.push_str(&format!("{}!", e));
    }
    let seps = |s: &mut Src, o: &mut String, min: usize| {
        let mut k = 0;
        while s.more(k, min, 4, 1, 8) {
            o.push(*s.pick(&['.', '-', '_']));
            k += 1;
        }
    };
    seps(s, &mut o, 0);
    let mut prev: Option<bool> = None;
    for c in &v.comps {
        let num = matches!(c, gen::Comp::Num(_));
        if let Some(p) = prev {
            let must = p == num || s.chance(1, 2);
            seps(s, &mut o, must as usize);
        }
        match c {
            gen::Comp::Num(d) => {
                let mut k = 0;
                while s.more(k, 0, 30, 1, 6) {
                    o.push('0');
                    k += 1;
                }
                o.push_str(d);
            }
            gen::Comp::Tag(t) => {
                if s.chance(1, 3) {
                    o.push_str(&gen::recase(s, t));
                } else if !t.is_ascii() && s.chance(2, 3) {
                    o.extend(t.chars().map(|c| {
                        let other = if c.is_uppercase() { c.to_lowercase().next() } else { c.to_uppercase().next() };
                        if s.chance(1, 2) { other.unwrap_or(c) } else { c }
                    }));
                } else {
                    o.push_str(t);
                }
            }
        }
        prev = Some(num);
    }
    if zeros && v.local.is_empty() && !v.comps.is_empty() {
        let mut k = 0;
        while s.more(k, 0, 8, 1, 3) {
            let must = prev == Some(true) || s.chance(1, 2);
            seps(s, &mut o, must as usize);
            o.push('0');
            if s.chance(1, 6) {
                o.push('0');
            }
            prev = Some(true);
            k += 1;
        }
    }
    seps(s, &mut o, 0);
    if !v.local.is_empty() {
        o.push('+');
        o.push_str(&v.local);
    }
    o
}

impl Prop for C02 {
    type Case = Spelling;
    const ID: &'static str = "C02";
    const RULE: &'static str = "a case is two spellings of one version and a third version; non-trivial if the two texts differ and the third differs from both in text; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 120_000_000, guided: 40_000_000 }
        } else {
            Plan { random: 2_500_000, guided: 500_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Spelling {
        let mut v = gen::vs(s);
        while v.comps.len() > 40 {
            v.comps.pop();
        }
        if s.chance(1, 8) {
            // letters beyond ASCII that have exactly one other case
            for c in v.comps.iter_mut() {
                if let gen::Comp::Tag(t) = c {
                    *t = t.chars().map(|x| if s.chance(1, 2) { *s.pick(&['é', 'Ä', 'ñ', 'ø', 'Ж', 'я', 'λ', 'Ω', 'ç']) } else { x }).collect();
                }
            }
        }
        let a = respell(s, &v, true);
        let b = respell(s, &v, true);
        let w = if s.chance(4, 5) { gen::mutate(s, &v) } else { gen::vs(s) };
        let messy = s.chance(1, 2);
        let other = gen::render(s, &w, messy);
        Spelling { a, b, other }
    }
    fn check(&self, c: &Spelling, st: &mut Stats) -> Result<(), String> {
        let (a, b, o) = match (parse(&c.a), parse(&c.b), parse(&c.other)) {
            (Some(a), Some(b), Some(o)) => (a, b, o),
            (a, b, _) if a.is_some() != b.is_some() => return Err(format!("only one of {:?} and {:?} parses", c.a, c.b)),
            _ => return Ok(()),
        };
        for (x, y) in &[(&a, &b), (&b, &a)] {
            let r = three(x, y)?;
            ensure!(r == 0, "{:?} is {} {:?}", x.as_str(), word(r), y.as_str());
            ensure!(*x == *y && !(*x != *y) && !(*x < *y) && !(*x > *y), "operators do not call {:?} and {:?} equal", x.as_str(), y.as_str());
        }
        let (ra, rb) = (three(&a, &o)?, three(&b, &o)?);
        ensure!(ra == rb, "{:?} is {} {:?}, but the other spelling {:?} is {} it", c.a, word(ra), c.other, c.b, word(rb));
        let (ra, rb) = (three(&o, &a)?, three(&o, &b)?);
        ensure!(ra == rb, "{:?} is {} {:?}, but it is {} the other spelling {:?}", c.other, word(ra), c.a, word(rb), c.b);
        st.nontrivial_if(c.a != c.b && c.other != c.a && c.other != c.b);
        st.label_if(a.part_count() != b.part_count(), "zero components appended");
        st.label_if(c.a.to_ascii_lowercase() == c.b.to_ascii_lowercase() && c.a != c.b, "case only");
        st.label(match ra {
            0 => "third equal",
            -1 => "third below",
            _ => "third above",
        });
        label_version(st, &c.a);
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["tags are of ASCII letters and of a few letters beyond ASCII that have exactly one other case".into()]
    }
}

// ---- C03 ----

pub struct C03;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Pair {
    pub a: String,
    pub b: String,
}

fn rank_pair(a: &str, b: &str) -> Result<i8, String> {
    let (va, vb) = (parsed(a)?, parsed(b)?);
    let want = ord8(model::cmp(&toks(a)?, &toks(b)?));
    let got = three(&va, &vb)?;
    ensure!(got == want, "{:?} is {} {:?}; by the documented ranks it is {}", a, word(got), b, word(want));
    Ok(want)
}

/// All versions of up to `len` components over the alphabet, times epochs and local labels.
fn universe(len: usize, alphabet: &[&str], epochs: &[&str], locals: &[&str]) -> Vec<String> {
    let mut cores: Vec<Vec<&str>> = vec![vec![]];
    let mut last: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for c in &last {
            for a in alphabet {
                let mut d = c.clone();
                d.push(*a);
                next.push(d);
            }
        }
        cores.extend(next.iter().cloned());
        last = next;
    }
    let mut out = vec![];
    for e in epochs {
        for c in &cores {
            for l in locals {
                out.push(format!("{}{}{}", e, c.join("."), l));
            }
        }
    }
    out
}

impl C03 {
    fn sweep(&self, all: &[String], shard: u64, shards: u64) -> Result<u64, (Pair, String)> {
        let vs: Vec<(Version, Vec<Tok>)> = all
            .iter()
            .filter_map(|t| Some((parse(t)?, model::parse(t)?)))
            .collect();
        let mut n = 0;
        for (i, (a, ta)) in vs.iter().enumerate() {
            if i as u64 % shards != shard {
                continue;
            }
            let mut at = 0;
            guard(|| {
                for (j, (b, tb)) in vs.iter().enumerate() {
                    at = j;
                    n += 1;
                    if three(a, b)? != ord8(model::cmp(ta, tb)) {
                        return Err("rank".into());
                    }
                }
                Ok(())
            })
            .map_err(|m| {
                let p = Pair { a: a.as_str().into(), b: vs[at].0.as_str().into() };
                let m = if m == "rank" { rank_pair(&p.a, &p.b).err().unwrap_or(m) } else { m };
                (p, m)
            })?;
        }
        Ok(n)
    }
}

impl Prop for C03 {
    type Case = Pair;
    const ID: &'static str = "C03";
    const RULE: &'static str = "a case is a pair of version texts; non-trivial if the texts differ and the pair is not decided by the first component alone, or is equal; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 150_000_000, guided: 40_000_000 }
        } else {
            Plan { random: 3_000_000, guided: 600_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Pair {
        let (a, b) = gen::pair(s);
        let mut t = [a, b];
        gen::foreign(s, &mut t);
        let [a, b] = t;
        Pair { a, b }
    }
    fn check(&self, c: &Pair, st: &mut Stats) -> Result<(), String> {
        let r = rank_pair(&c.a, &c.b)?;
        let back = rank_pair(&c.b, &c.a)?;
        ensure!(r == -back, "HARNESS: the model is not antisymmetric on {:?}", c);
        let (x, y) = (toks(&c.a)?, toks(&c.b)?);
        let first = model::cmp_tok(x.get(0), y.get(0));
        st.nontrivial_if(c.a != c.b && first == Ordering::Equal);
        st.label(match r {
            0 => "equal",
            -1 => "less",
            _ => "greater",
        });
        st.label_if(x.len() != y.len(), "different numbers of components");
        st.label_if(x.len() > 20, "more than 20 components");
        label_version(st, &c.a);
        Ok(())
    }
    fn exhaustive(&self, shard: u64, shards: u64, thorough: bool, _st: &mut Stats) -> Result<u64, (Pair, String)> {
        let a = ["0", "1", "2", "10", "a", "b", "dev", "post", "rc"];
        let mut n = self.sweep(&universe(2, &a, &["", "1!", "2!", "-1!", "0!"], &["", "+1", "+a", "+10"]), shard, shards)?;
        n += self.sweep(&universe(3, &a, &[""], &["", "+a"]), shard, shards)?;
        if thorough {
            n += self.sweep(&universe(3, &a, &["", "1!"], &["", "+1", "+a", "+b"]), shard, shards)?;
            n += self.sweep(&universe(4, &["0", "1", "2", "a", "dev", "post", "RC"], &["", "3!"], &["", "+a"]), shard, shards)?;
            n += self.sweep(&universe(6, &["0", "1", "dev", "post"], &[""], &["", "+1"]), shard, shards)?;
        }
        Ok(n)
    }
    fn exhaustive_scope(&self, thorough: bool) -> Option<String> {
        Some(if thorough {
            "all ordered pairs of versions of up to 3 components over {0,1,2,10,a,b,dev,post,rc} with 2 epochs x 4 local labels; up to 4 over {0,1,2,a,dev,post,RC} with 2 x 2; up to 6 over {0,1,dev,post} with 1 x 2; up to 2 with 5 epochs x 4 labels".into()
        } else {
            "all ordered pairs of versions of up to 2 components over {0,1,2,10,a,b,dev,post,rc} with 5 epochs x 4 local labels, and of up to 3 components with 1 x 2".into()
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["versions: letters (ASCII and a few beyond), digits, separators, epoch, local label".into()]
    }
}

// ---- C04 ----

pub struct C04;

pub fn any_pair(s: &mut Src) -> Pair {
    let (mut a, mut b) = gen::pair(s);
    if s.chance(1, 5) {
        if s.chance(1, 2) {
            a = gen::parsable(gen::widen(s, &a));
        }
        if s.chance(1, 2) {
            b = gen::parsable(gen::widen(s, &b));
        }
        if s.chance(1, 4) {
            b = a.clone();
        }
    }
    Pair { a, b }
}

pub fn holds(o: CompOp, r: i8) -> bool {
    match o {
        CompOp::Eq => r == 0,
        CompOp::Ne => r != 0,
        CompOp::Lt => r < 0,
        CompOp::Le => r <= 0,
        CompOp::Gt => r > 0,
        _ => r >= 0,
    }
}

impl Prop for C04 {
    type Case = Pair;
    const ID: &'static str = "C04";
    const RULE: &'static str = "a case is a pair of version texts; non-trivial if the texts differ; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 40_000_000, guided: 15_000_000 }
        } else {
            Plan { random: 900_000, guided: 250_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Pair {
        any_pair(s)
    }
    fn check(&self, c: &Pair, st: &mut Stats) -> Result<(), String> {
        let (a, b) = match (parse(&c.a), parse(&c.b)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let r = three(&a, &b)?;
        let back = three(&b, &a)?;
        ensure!(r == -back, "{:?} is {} {:?}, but swapped it is {}", c.a, word(r), c.b, word(back));
        let want = match r {
            -1 => CompOp::Lt,
            0 => CompOp::Eq,
            _ => CompOp::Gt,
        };
        let by_text = a.compare_str(&c.b);
        ensure!(by_text == want, "comparing {:?} with the text {:?} gives {:?}, comparing values gives {:?}", c.a, c.b, by_text, want);
        let po = a.partial_cmp(&b);
        ensure!(po == want.ord() && po.is_some(), "partial_cmp of {:?} and {:?} gives {:?}, comparing gives {:?}", c.a, c.b, po, want);
        for o in OPS.iter().map(|o| op(*o)) {
            let w = holds(o, r);
            let x = a.compare_to_version(&b, &o);
            ensure!(x == w, "{:?} {} {:?} is {} although {:?} is {} {:?}", c.a, o.sign(), c.b, x, c.a, word(r), c.b);
            let x = a.compare_to_str(&c.b, &o);
            ensure!(x == w, "{:?} {} text {:?} is {} although {:?} is {} {:?}", c.a, o.sign(), c.b, x, c.a, word(r), c.b);
            let x = match o {
                CompOp::Eq => a == b,
                CompOp::Ne => a != b,
                CompOp::Lt => a < b,
                CompOp::Le => a <= b,
                CompOp::Gt => a > b,
                _ => a >= b,
            };
            ensure!(x == w, "the language operator {} between {:?} and {:?} is {} although the first is {} the second", o.sign(), c.a, c.b, x, word(r));
        }
        let sw = a.startswith(&b);
        for (o, w) in &[(CompOp::StartsWith, sw), (CompOp::NotStartsWith, !sw)] {
            let x = a.compare_to_version(&b, o);
            ensure!(x == *w, "{:?} {} {:?} is {} although startswith is {}", c.a, o.sign(), c.b, x, sw);
            let x = a.compare_to_str(&c.b, o);
            ensure!(x == *w, "{:?} {} text {:?} is {} although startswith is {}", c.a, o.sign(), c.b, x, sw);
        }
        for o in &[CompOp::Compatible, CompOp::Incompatible] {
            let (x, y) = (a.compare_to_version(&b, o), a.compare_to_str(&c.b, o));
            ensure!(x == y, "{:?} {} {:?} is {} for values and {} for text", c.a, o.sign(), c.b, x, y);
        }
        st.nontrivial_if(c.a != c.b);
        st.label(match r {
            0 => "equal",
            -1 => "less",
            _ => "greater",
        });
        st.label_if(sw && c.a != c.b, "proper prefix");
        label_version(st, &c.a);
        label_version(st, &c.b);
        Ok(())
    }
}

// ---- C05 ----

pub struct C05;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct OpCase {
    pub text: String,
    pub a: String,
    pub b: String,
}

const SIGNS: [&str; 10] = ["==", "!=", "<", "<=", ">=", ">", "=", "!=startswith", "~=", "!~="];
const NAMES: [&str; 10] = ["eq", "ne", "lt", "le", "ge", "gt", "startswith", "notstartswith", "compatible", "incompatible"];

impl Prop for C05 {
    type Case = OpCase;
    const ID: &'static str = "C05";
    const RULE: &'static str = "a case is a text read as sign and as name, and a pair of versions for the algebra; non-trivial if the two version texts differ and the text is not exactly a sign or name; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 40_000_000, guided: 15_000_000 }
        } else {
            Plan { random: 900_000, guided: 250_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> OpCase {
        let mut t = match s.weighted(&[6, 6, 2, 1]) {
            0 => s.pick(&SIGNS).to_string(),
            1 => s.pick(&NAMES).to_string(),
            2 => {
                let mut t = String::new();
                while s.more(t.len(), 0, 5, 3, 4) {
                    t.push(*s.pick(&['=', '<', '>', '!', '~', ' ', 's']));
                }
                t
            }
            _ => gen::text(s),
        };
        if s.chance(1, 2) {
            t = gen::recase(s, &t);
        }
        if s.chance(1, 3) {
            // one edit
            let mut cs: Vec<char> = t.chars().collect();
            let ch = if s.chance(1, 2) { *s.pick(&['=', '<', '>', '!', '~', ' ', 'e', 't', 's', '\u{a0}', '\u{200b}', 'ſ', 'K', 'İ']) } else { gen::wide_char(s) };
            let i = s.below_us(cs.len() + 1);
            match s.below(3) {
                0 => cs.insert(i, ch),
                1 if i < cs.len() => cs[i] = ch,
                _ if i < cs.len() => {
                    cs.remove(i);
                }
                _ => {}
            }
            t = cs.into_iter().collect();
        }
        while s.more(0, 0, 1, 1, 3) {
            let w = *s.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}']);
            if s.chance(1, 2) {
                t.push(w);
            } else {
                t.insert(0, w);
            }
        }
        let p = any_pair(s);
        OpCase { text: t, a: p.a, b: p.b }
    }
    fn check(&self, c: &OpCase, st: &mut Stats) -> Result<(), String> {
        let core = c.text.trim();
        let want = SIGNS.iter().position(|s| *s == core).map(|i| ALL[i]);
        let got = CompOp::from_sign(&c.text).ok();
        ensure!(got == want, "the sign {:?} is read as {:?}, not {:?}", c.text, got, want);
        let want = NAMES.iter().position(|s| s.eq_ignore_ascii_case(core)).map(|i| ALL[i]);
        let got = CompOp::from_name(&c.text).ok();
        ensure!(got == want, "the name {:?} is read as {:?}, not {:?}", c.text, got, want);
        for (i, o) in ALL.iter().enumerate() {
            ensure!(CompOp::from_sign(o.sign()) == Ok(*o), "the sign {:?} of {:?} is not read back", o.sign(), o);
            ensure!(CompOp::from_name(o.name()) == Ok(*o), "the name {:?} of {:?} is not read back", o.name(), o);
            ensure!(o.sign() == SIGNS[i], "{:?} has the sign {:?}", o, o.sign());
            ensure!(o.name() == NAMES[i], "{:?} has the name {:?}", o, o.name());
            ensure!(o.invert().invert() == *o, "inverting {:?} twice gives {:?}", o, o.invert().invert());
            ensure!(o.opposite().opposite() == *o, "opposite of {:?} twice gives {:?}", o, o.opposite().opposite());
            ensure!(o.flip().flip() == *o, "flipping {:?} twice gives {:?}", o, o.flip().flip());
            ensure!(i < 6 || o.flip() == *o, "flipping {:?}, which orders nothing, gives {:?}", o, o.flip());
            ensure!(o.as_inverted() == o.invert(), "as_inverted of {:?} differs from invert", o);
            ensure!(o.as_opposite() == o.opposite(), "as_opposite of {:?} differs from opposite", o);
            ensure!(o.as_flipped() == o.flip(), "as_flipped of {:?} differs from flip", o);
        }
        let pairs = [(CompOp::Eq, CompOp::Ne), (CompOp::Lt, CompOp::Gt), (CompOp::Le, CompOp::Ge)];
        for (x, y) in &pairs {
            ensure!(x.opposite() == *y, "the opposite of {:?} is {:?}", x, x.opposite());
        }
        for o in &[Ordering::Less, Ordering::Equal, Ordering::Greater] {
            let x = CompOp::from_ord(*o);
            ensure!(x.ord() == Some(*o), "{:?} becomes {:?} and then {:?}", o, x, x.ord());
            ensure!(x.factor() == *o as i8, "the factor of {:?} is {}", x, x.factor());
        }
        if let (Some(a), Some(b)) = (parse(&c.a), parse(&c.b)) {
            for o in &ALL {
                let (x, y) = (a.compare_to_version(&b, o), a.compare_to_version(&b, &o.invert()));
                ensure!(x != y, "{:?} {:?} {:?} and its inversion {:?} both give {}", c.a, o, c.b, o.invert(), x);
            }
            for o in &ALL[..6] {
                let (x, y) = (a.compare_to_version(&b, o), b.compare_to_version(&a, &o.flip()));
                ensure!(x == y, "{:?} {:?} {:?} is {}, but flipped ({:?}) it is {}", c.a, o, c.b, x, o.flip(), y);
            }
            let r = a.compare_version(&b);
            let want = (a > b) as i8 - (a < b) as i8;
            ensure!(r.factor() == want, "the factor of comparing {:?} and {:?} is {}, not {}", c.a, c.b, r.factor(), want);
            ensure!(r.ord() == a.partial_cmp(&b), "the ordering of comparing {:?} and {:?} is {:?}", c.a, c.b, r.ord());
            ensure!(r.ord().map(|o| o as i8) == Some(want), "the ordering of comparing {:?} and {:?} is {:?}", c.a, c.b, r.ord());
        }
        st.nontrivial_if(c.a != c.b && !SIGNS.contains(&&c.text[..]) && !NAMES.contains(&&c.text[..]));
        st.label_if(CompOp::from_sign(&c.text).is_ok(), "text is a sign");
        st.label_if(CompOp::from_name(&c.text).is_ok(), "text is a name");
        Ok(())
    }
}
