//! C22, C23: single components, and versions made by a parser of the caller's.
use crate::ensure;
use crate::util::*;
use ronda::verif_hooks::{Spec, VersionParsingError};
use ronda::{conda_parser, CompOp, Version, VersionPart, VersionSpecOrConstraintTree};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use vcore::gen;
use vcore::model::{self, Tok};
use vcore::runner::Plan;
use vcore::spec::{self, Atom, Ex, Kind};
use vcore::{Prop, Src, Stats};

fn part_cmp(a: &VersionPart, b: &VersionPart) -> Result<Ordering, String> {
    let o = match a.partial_cmp(b) {
        Some(o) => o,
        None => return Err(format!("the components {} and {} cannot be compared", a, b)),
    };
    let want = [o == Ordering::Less, o != Ordering::Greater, o == Ordering::Equal, o != Ordering::Equal, o == Ordering::Greater, o != Ordering::Less];
    let got = [a < b, a <= b, a == b, a != b, a > b, a >= b];
    ensure!(got == want, "components {} and {}: <, <=, ==, !=, >, >= give {:?} but they compare {:?}", a, b, got, o);
    if let (VersionPart::PEP440String(x), VersionPart::PEP440String(y)) = (a, b) {
        // the tags inside
        let got = [x < y, x <= y, x == y, x != y, x > y, x >= y];
        ensure!(x.partial_cmp(y) == Some(o) && got == want, "tags {} and {}: <, <=, ==, !=, >, >= give {:?} but their components compare {:?}", x, y, got, o);
    }
    Ok(o)
}

fn word_o(o: Ordering) -> &'static str {
    word(o as i8)
}

// ---- C22 ----

pub struct C22;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Texts {
    pub texts: Vec<String>,
}

impl Prop for C22 {
    type Case = Texts;
    const ID: &'static str = "C22";
    const RULE: &'static str = "a case is two to four version texts whose components are compared with each other; non-trivial if they have at least three components that print differently; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 40_000_000, guided: 15_000_000 }
        } else {
            Plan { random: 800_000, guided: 200_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Texts {
        let mut texts = gen::family(s, 2, 4);
        texts.truncate(4);
        gen::foreign(s, &mut texts);
        Texts { texts }
    }
    fn check(&self, c: &Texts, st: &mut Stats) -> Result<(), String> {
        let mut all: Vec<(Tok, VersionPart)> = vec![];
        let mut vs: Vec<(Version, Vec<Tok>)> = vec![];
        for t in &c.texts {
            if model::refusal(t).is_some() || !gen::plain(t) {
                continue;
            }
            let (v, k) = (parsed(t)?, toks(t)?);
            ensure!(v.parts().len() == k.len(), "{:?} has {} components, not {}", t, v.parts().len(), k.len());
            for (x, p) in k.iter().zip(v.parts()).take(9) {
                if all.len() < 24 && !all.iter().any(|(y, _)| y == x) {
                    all.push((x.clone(), p.clone()));
                }
            }
            vs.push((v, k));
        }
        let n = all.len();
        let mut m = vec![Ordering::Equal; n * n];
        for i in 0..n {
            for j in 0..n {
                let o = part_cmp(&all[i].1, &all[j].1)?;
                let want = model::cmp_tok(Some(&all[i].0), Some(&all[j].0));
                ensure!(o == want, "component {} is {} {}; by the documented ranks it is {}", all[i].1, word_o(o), all[j].1, word_o(want));
                m[i * n + j] = o;
            }
        }
        for i in 0..n {
            ensure!(m[i * n + i] == Ordering::Equal, "component {} does not equal itself", all[i].1);
            let k = all[i].1.clone();
            ensure!(part_cmp(&k, &all[i].1)? == Ordering::Equal && k.to_string() == all[i].1.to_string(), "a clone of component {} differs", all[i].1);
            for j in 0..n {
                ensure!(m[i * n + j] == m[j * n + i].reverse(), "components {} and {} compare {:?}, swapped {:?}", all[i].1, all[j].1, m[i * n + j], m[j * n + i]);
                for k in 0..n {
                    ensure!(
                        m[i * n + j] == Ordering::Greater || m[j * n + k] == Ordering::Greater || m[i * n + k] == m[i * n + j].then(m[j * n + k]),
                        "not transitive: components {}, {}, {}", all[i].1, all[j].1, all[k].1
                    );
                }
            }
        }
        // versions by their components
        let zero = VersionPart::Integer(0);
        for (a, _) in &vs {
            for (b, _) in &vs {
                let (p, q) = (a.parts(), b.parts());
                let mut want = Ordering::Equal;
                for i in 0..p.len().max(q.len()) {
                    want = part_cmp(p.get(i).unwrap_or(&zero), q.get(i).unwrap_or(&zero))?;
                    if want != Ordering::Equal {
                        break;
                    }
                }
                let got = three(a, b)?;
                ensure!(got == want as i8, "{:?} is {} {:?}, but by their components it is {}", a.as_str(), word(got), b.as_str(), word_o(want));
                let want = p.len() >= q.len() && p.iter().zip(q).all(|(x, y)| x == y);
                ensure!(a.startswith(b) == want, "{:?} starts with {:?}: {}, but by their components {}", a.as_str(), b.as_str(), !want, want);
            }
        }
        st.nontrivial_if(n >= 3);
        let kinds = |f: fn(&Tok) -> bool| all.iter().any(|(t, _)| f(t));
        st.label_if(kinds(|t| matches!(t, Tok::Epoch(_))), "epoch");
        st.label_if(kinds(|t| matches!(t, Tok::Local(_))), "local label");
        st.label_if(kinds(|t| matches!(t, Tok::Empty)), "empty version");
        st.label_if(kinds(|t| matches!(t, Tok::Num(d) if d.len() > 18)), "number of 19 digits or more");
        st.label_if(kinds(|t| matches!(t, Tok::Tag(_))), "tag");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["components are taken from parsed versions of ASCII and some caseless letters beyond".into()]
    }
}

// ---- C23 ----

/// A parser of the caller's, by what it does with the text or the components.
#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Custom {
    /// read another text instead
    Fixed(String),
    /// replace one text by another first
    Replace(String, String),
    /// without the first characters
    Skip(usize),
    /// only the first components (at least one)
    Take(usize),
    /// the components repeated
    Twice,
    /// plain numbers between dots, an error otherwise
    Numbers,
    Fail(u8),
    /// these components, whatever the text
    Parts(Vec<Tok>),
}

fn part(k: &Tok) -> VersionPart {
    match k {
        Tok::Epoch(e) => VersionPart::Epoch(*e),
        Tok::Neg(n) => VersionPart::Integer(*n),
        Tok::Local(l) => VersionPart::LexicographicString(l.clone()),
        Tok::Empty => VersionPart::Empty,
        // what only the standard parser can make
        Tok::Num(t) | Tok::Tag(t) => conda_parser(t).ok().and_then(|p| p.into_iter().next()).expect("HARNESS: a component"),
    }
}

fn one(s: &mut Src, numbers: bool) -> Tok {
    match s.weighted(&[6, if numbers { 0 } else { 3 }, if numbers { 0 } else { 2 }, if numbers { 0 } else { 1 }, if numbers { 6 } else { 1 }]) {
        1 => Tok::Tag(s.pick(&["a", "b", "RC", "rc", "dev", "Dev", "post", "POST", "postdev", "x~", "alpha", " "]).to_string()),
        2 => Tok::Local({
            let l = gen::local(s);
            if l.is_empty() {
                "l".into()
            } else {
                l
            }
        }),
        3 => {
            if s.chance(1, 2) {
                Tok::Empty
            } else {
                Tok::Epoch(s.below(65536) as u16 as i16)
            }
        }
        4 => Tok::Neg(*s.pick(&[-1, -2, i64::min_value(), i64::min_value() + 1, -(1 << 53), -(1 << 53) - 1, -65536, -4294967296])),
        _ => Tok::Num(match s.below(4) {
            0 => s.pick(&["9223372036854775807", "9223372036854775806", "9223372036854775808", "4294967296", "2147483648", "9007199254740993"]).to_string(),
            1 => model::strip_zeros(&gen::number(s)),
            _ => s.below(4).to_string(),
        }),
    }
}

fn parts_list(s: &mut Src, like: Option<&[Tok]>) -> Vec<Tok> {
    let numbers = s.chance(1, 3);
    let mut k = vec![];
    if let Some(l) = like {
        // another list, changed a little
        k = l.to_vec();
        for _ in 0..1 + s.below(2) {
            let i = s.below_us(k.len() + 1);
            match s.below(6) {
                0 => k.truncate(i),
                1 => k.push(one(s, numbers)),
                2 => k.insert(i, one(s, numbers)),
                3 if i < k.len() => {
                    k.remove(i);
                }
                4 => k.extend((0..1 + s.below(3)).map(|_| Tok::Num("0".into()))),
                _ if i < k.len() => k[i] = one(s, numbers),
                _ => {}
            }
        }
        return k;
    }
    while s.more(k.len(), 0, 8, 3, 4) {
        k.push(one(s, numbers));
    }
    k
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Customized {
    pub items: Vec<(String, Custom)>,
}

fn fail(k: u8, t: &str) -> VersionParsingError {
    match k % 5 {
        0 => VersionParsingError::Message(format!("no {}", t)),
        1 => VersionParsingError::DisallowedCharacter,
        2 => VersionParsingError::DuplicatedEpochCharacter,
        3 => VersionParsingError::DuplicatedLocalSeparatorCharacter,
        _ => VersionParsingError::UnknownParseError,
    }
}

fn skip(t: &str, n: usize) -> String {
    t.chars().skip(n).collect()
}

/// The text the standard parser sees, and what is kept of its components.
fn custom(t: &str, c: &Custom) -> Result<Vec<VersionPart>, VersionParsingError> {
    match c {
        Custom::Fixed(x) => conda_parser(x),
        Custom::Replace(a, b) => conda_parser(&t.replace(&a[..], b)),
        Custom::Skip(n) => conda_parser(&skip(t, *n)),
        Custom::Take(n) => conda_parser(t).map(|p| p.into_iter().take(*n).collect()),
        Custom::Twice => conda_parser(t).map(|p| {
            let q = p.clone();
            p.into_iter().chain(q).collect()
        }),
        Custom::Numbers => t.split('.').map(|x| x.parse::<u32>().map(|n| VersionPart::Integer(n.into())).map_err(|_| VersionParsingError::DisallowedCharacter)).collect(),
        Custom::Fail(k) => Err(fail(*k, t)),
        Custom::Parts(k) => Ok(k.iter().map(part).collect()),
    }
}

/// The same by the reference tokenizer; None: an error.
fn custom_model(t: &str, c: &Custom) -> Option<Vec<Tok>> {
    match c {
        Custom::Fixed(x) => model::parse(x),
        Custom::Replace(a, b) => model::parse(&t.replace(&a[..], b)),
        Custom::Skip(n) => model::parse(&skip(t, *n)),
        Custom::Take(n) => model::parse(t).map(|p| p.into_iter().take(*n).collect()),
        Custom::Twice => model::parse(t).map(|p| {
            let q = p.clone();
            p.into_iter().chain(q).collect()
        }),
        Custom::Numbers => t
            .split('.')
            .map(|x| if x.strip_prefix('+').unwrap_or(x).bytes().all(|b| b.is_ascii_digit()) { x.parse::<u32>().ok().map(|n| Tok::Num(n.to_string())) } else { None })
            .collect(),
        Custom::Fail(_) => None,
        Custom::Parts(k) => Some(k.clone()),
    }
}

fn a_parser(s: &mut Src) -> Custom {
    match s.weighted(&[3, 4, 3, 3, 1, 2, 1]) {
        0 => Custom::Fixed(gen::version(s)),
        1 => Custom::Replace(s.pick(&[".", "-", "_", "+", "0", "a", "1", "dev", ","]).to_string(), s.pick(&["", ".", ",", "a", "0", "post", "+", "!"]).to_string()),
        2 => Custom::Skip(1 + s.below_us(4)),
        3 => Custom::Take(1 + s.below_us(4)),
        4 => Custom::Twice,
        5 => Custom::Numbers,
        _ => Custom::Fail(s.below(5) as u8),
    }
}

pub struct C23;

impl Prop for C23 {
    type Case = Customized;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a case is two or three texts, each with a parser of the caller's; non-trivial if at least one parser gives other components than the standard one, or an error; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 60_000_000, guided: 20_000_000 }
        } else {
            Plan { random: 1_200_000, guided: 300_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Customized {
        let mut texts = gen::family(s, 2, 3);
        texts.truncate(3);
        gen::foreign(s, &mut texts);
        let mut last: Option<Vec<Tok>> = None;
        let items = texts
            .into_iter()
            .map(|t| {
                let c = if s.chance(if last.is_some() { 3 } else { 1 }, 4) {
                    let k = parts_list(s, last.as_deref());
                    last = Some(k.clone());
                    Custom::Parts(k)
                } else {
                    a_parser(s)
                };
                let t = match s.below(4) {
                    0 => format!("v{}", t),
                    1 => gen::widen(s, &t).chars().filter(|c| c.is_ascii()).collect(),
                    _ => t,
                };
                (t, c)
            })
            .collect();
        Customized { items }
    }
    fn check(&self, c: &Customized, st: &mut Stats) -> Result<(), String> {
        let mut made: Vec<(Version, Vec<Tok>, String)> = vec![];
        for (t, p) in &c.items {
            if !gen::plain(t) {
                continue;
            }
            let calls = std::cell::RefCell::new(vec![]);
            let got = Version::parse(t, &|x: &str| {
                calls.borrow_mut().push(x.to_string());
                custom(x, p)
            });
            let name = format!("{:?} by {:?}", t, p);
            for x in calls.borrow().iter() {
                ensure!(x == t, "parsing {}: the parser is given {:?}", name, x);
            }
            ensure!(!calls.borrow().is_empty(), "parsing {}: the parser is not asked", name);
            match (got, custom_model(t, p)) {
                (Ok(v), Some(k)) => {
                    ensure!(v.as_str() == t && v.to_string() == *t, "{} keeps the text {:?}", name, v.as_str());
                    let want: Vec<String> = k.iter().map(model::show).collect();
                    let show: Vec<String> = v.parts().iter().map(|p| p.to_string()).collect();
                    ensure!(show == want, "{} has the components {:?}, the parser gave {:?}", name, show, want);
                    ensure!(v.part_count() == want.len() && v.part(want.len()).is_err(), "{} has {} components, not {}", name, v.part_count(), want.len());
                    st.nontrivial_if(model::parse(t).as_ref() != Some(&k));
                    made.push((v, k, name));
                }
                (Err(e), None) => {
                    let want = custom(t, p);
                    ensure!(Some(&e) == want.as_ref().err(), "{} fails with {:?}, the parser with {:?}", name, e, want.err());
                    st.nontrivial();
                    st.label("the parser's error");
                }
                (Ok(_), None) => return Err(format!("{} is accepted although the parser gives an error", name)),
                (Err(e), Some(_)) => return Err(format!("{} fails with {:?} although the parser gives components", name, e)),
            }
        }
        for (a, x, na) in &made {
            for (b, y, nb) in &made {
                let want = model::cmp(x, y) as i8;
                let got = three(a, b)?;
                ensure!(got == want, "{} is {} {}; by its components it is {}", na, word(got), nb, word(want));
                ensure!((a == b) == (want == 0) && (a < b) == (want < 0) && (a > b) == (want > 0), "{} and {}: the operators disagree with the components", na, nb);
                let want = model::startswith(x, y);
                ensure!(a.startswith(b) == want, "{} starts with {}: {}, by the components {}", na, nb, !want, want);
                ensure!(a.compare_to_version(b, &CompOp::StartsWith) == want, "{} StartsWith {}: {}, by the components {}", na, nb, !want, want);
                st.label_if(a.as_str() == b.as_str() && x != y, "same text, other components");
                st.label_if(a.as_str() != b.as_str() && model::cmp(x, y) == Ordering::Equal, "other text, equal components");
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["custom parsers rewrite the text, or select or repeat components, of the standard parser, read plain numbers, return any list of components, or fail".into()]
    }
}

// ---- C24 ----

pub struct C24;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Judged {
    pub ex: Ex,
    pub text: String,
    pub versions: Vec<(String, Custom)>,
}

/// Printable text beyond what versions allow, near a text.
fn odd(s: &mut Src, t: &str) -> String {
    let mut o: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.below(2) {
        let i = s.below_us(o.len() + 1);
        let x = *s.pick(&['@', ' ', '^', '$', '*', '/', '[', '\\', '=', '<', '(', '|', ',', '+', '!', '.', '1', '%', '"']);
        if i < o.len() && s.chance(1, 3) {
            o[i] = x;
        } else {
            o.insert(i, x);
        }
    }
    o.into_iter().collect()
}

impl Prop for C24 {
    type Case = Judged;
    const ID: &'static str = "C24";
    const RULE: &'static str = "a case is a constraint expression and versions made by parsers of the caller's; non-trivial if a version whose components are not those the standard parser reads in its text gets another answer than the version of the same text by the standard parser, or there is none; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 14_000_000, guided: 6_000_000 }
        } else {
            Plan { random: 250_000, guided: 90_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Judged {
        let mut ex = if s.chance(1, 2) { Ex::Atom(spec::atom(s)) } else { spec::expr(s, &mut spec::atom) };
        if let Ex::Atom(a) = &mut ex {
            if let (Kind::Exact(t), true) = (&a.kind, s.chance(1, 3)) {
                let t = if s.chance(1, 2) { format!("{} ", t) } else { format!(" {}", t) };
                *a = Atom { text: t.clone(), exact: true, kind: Kind::Exact(t) };
            }
        }
        let text = spec::spell(s, &ex, false);
        let mut atoms = vec![];
        ex.atoms(&mut atoms);
        let mut versions = vec![];
        while s.more(versions.len(), 1, 5, 3, 4) {
            let a = *s.pick(&atoms);
            let mut t = if matches!(a.kind, Kind::Exact(_)) && s.chance(1, 2) { a.text.clone() } else { spec::version_near(s, a) };
            if s.chance(1, 8) {
                t = odd(s, &t);
            }
            let b = *s.pick(&atoms);
            let p = match s.weighted(&[3, 4, 3, 2]) {
                0 => Custom::Fixed(spec::version_near(s, b)),
                1 => {
                    let near = spec::version_near(s, b);
                    match model::parse(&near) {
                        Some(k) if gen::plain(&near) => Custom::Parts(parts_list(s, Some(&k))),
                        _ => Custom::Parts(parts_list(s, None)),
                    }
                }
                2 => a_parser(s),
                _ => Custom::Parts(parts_list(s, None)),
            };
            versions.push((t, p));
        }
        Judged { ex, text, versions }
    }
    fn check(&self, c: &Judged, st: &mut Stats) -> Result<(), String> {
        let mut ways: Vec<(&str, VersionSpecOrConstraintTree)> = vec![];
        // (an expression is read without the blanks around its constraints)
        if !matches!(&c.ex, Ex::Atom(a) if a.text.trim() != a.text) {
            ways.push(("the tree of", tree(&c.text).map_err(|e| format!("treeify refuses {:?}: {}", c.text, e))?.into()));
        }
        if let Ex::Atom(a) = &c.ex {
            ways.push(("the constraint", vspec(&a.text).map_err(|e| format!("the constraint {:?} is refused: {}", a.text, e))?.into()));
            ways.push(("reading", vsoct(&a.text).map_err(|e| format!("the expression {:?} is refused: {}", a.text, e))?));
        }
        for (t, p) in &c.versions {
            let k = match custom_model(t, p) {
                Some(k) => k,
                None => continue,
            };
            if !gen::plain(t) || matches!(p, Custom::Fixed(x) if !gen::plain(x)) {
                continue;
            }
            let v = Version::parse(t, &|x: &str| custom(x, p)).map_err(|e| format!("{:?} by {:?} fails with {:?}", t, p, e))?;
            let want = c.ex.holds(&|a| a.kind.accepts_made(t, &|| k.clone()));
            for (how, x) in &ways {
                let got = x.test_match_version(&v);
                ensure!(got == want, "{} {:?} {} {:?} by {:?}; by its text and components it {}", how, c.text, if got { "accepts" } else { "rejects" }, t, p, if want { "should" } else { "should not" });
            }
            st.label(if want { "accepts" } else { "rejects" });
            let plain = model::parse(t);
            st.nontrivial_if(match &plain {
                Some(q) => *q != k && c.ex.accepts(t) != want,
                None => true,
            });
            st.label_if(plain.is_none(), "text only the caller's parser reads");
            st.label_if(plain.is_none() && want, "such text accepted");
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["custom parsers as in C23; version texts of printable ASCII".into()]
    }
}
