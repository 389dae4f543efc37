//! C09, C10, C18, C19, C21: simple constraints.
use crate::ensure;
use crate::order::{any_pair, Pair};
use crate::util::*;
use ronda::verif_hooks::Spec;
use ronda::{untreeify, CompOp, ConstraintTree, VersionSpecOrConstraintTree};
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model;
use vcore::runner::Plan;
use vcore::spec::{self, Atom, Ex, Kind};
use vcore::{Prop, Src, Stats};

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct AtomCase {
    pub atom: Atom,
    pub versions: Vec<String>,
}

/// Versions to try against an atom: several near it.
pub fn versions_near(s: &mut Src, a: &Atom, max: usize) -> Vec<String> {
    let mut v = vec![];
    while s.more(v.len(), 1, max, 3, 4) {
        v.push(spec::version_near(s, a));
    }
    v
}

/// Evaluate one constraint on one version in every way; they must agree.
pub fn eval<S: Spec>(what: &str, text: &str, c: &S, v: &str) -> Result<bool, String> {
    let pv = parsed(v)?;
    let x = c.test_match_version(&pv);
    let y = c.test_match(v);
    ensure!(x == y, "{} {:?} tested against {:?}: parsed {}, as text {}", what, text, v, x, y);
    Ok(x)
}

fn has_special(t: &str) -> bool {
    t.contains(|c| "()|,^$".contains(c))
}

/// Check an atom against its model on its versions.
fn check_atom(c: &AtomCase, st: &mut Stats) -> Result<(usize, usize), String> {
    let a = &c.atom;
    let (mut yes, mut no) = (0, 0);
    let vs = vspec(&a.text).map_err(|e| format!("the constraint {:?} is refused: {}", a.text, e))?;
    let both = vsoct(&a.text).map_err(|e| format!("the constraint {:?} is refused as an expression: {}", a.text, e))?;
    for v in &c.versions {
        let want = a.kind.accepts(v);
        let got = eval("constraint", &a.text, &vs, v)?;
        ensure!(got == want, "the constraint {:?} {} {:?}", a.text, if got { "accepts" } else { "does not accept" }, v);
        let got = eval("expression", &a.text, &both, v)?;
        ensure!(got == want, "the expression {:?} {} {:?}", a.text, if got { "accepts" } else { "does not accept" }, v);
        if want {
            yes += 1;
            st.label("accepts");
        } else {
            no += 1;
            st.label("rejects");
        }
    }
    Ok((yes, no))
}

fn kind_label(k: &Kind) -> &'static str {
    match k {
        Kind::Cmp(o, _) => match o {
            model::Op::Eq => "==",
            model::Op::Ne => "!=",
            model::Op::Lt => "<",
            model::Op::Le => "<=",
            model::Op::Gt => ">",
            model::Op::Ge => ">=",
        },
        Kind::Starts(_) => "startswith",
        Kind::NotStarts(_) => "not startswith",
        Kind::Compat(_) => "~=",
        Kind::Any => "*",
        Kind::Exact(_) => "@",
        Kind::Glob(_) => "wildcard",
        Kind::Regex(_) => "regex",
    }
}

// ---- C09 ----

pub struct C09;

impl Prop for C09 {
    type Case = AtomCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "a case is a simple constraint and versions; non-trivial if it has an operand and is tested against a version whose text differs from the operand; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 50_000_000, guided: 20_000_000 }
        } else {
            Plan { random: 900_000, guided: 300_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> AtomCase {
        let mut atom = spec::simple(s);
        if let Kind::Compat(v) = &atom.kind {
            atom = Atom { text: v.clone(), exact: true, kind: Kind::Cmp(model::Op::Eq, v.clone()) };
        }
        if let (Kind::Exact(t), true) = (&atom.kind, s.chance(1, 2)) {
            // '@' allows characters no version has
            let mut t: Vec<char> = t.chars().collect();
            for _ in 0..1 + s.below(2) {
                let at = 1 + s.below_us(t.len());
                t.insert(at, *s.pick(&['@', '/', '[', '\\', '=', '<', '%', '"', '#', '~', ':', '?', '{']));
            }
            let t: String = t.into_iter().collect();
            atom = Atom { text: t.clone(), exact: true, kind: Kind::Exact(t) };
        }
        let versions = versions_near(s, &atom, 6);
        AtomCase { atom, versions }
    }
    fn check(&self, c: &AtomCase, st: &mut Stats) -> Result<(), String> {
        let r = check_atom(c, st)?;
        st.label(kind_label(&c.atom.kind));
        st.label_if(r.0 > 0 && r.1 > 0, "case with both answers");
        let about = c.atom.kind.about();
        st.nontrivial_if(about.map_or(false, |t| c.versions.iter().any(|v| v != t)));
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["versions: letters (ASCII and some caseless ones beyond), digits, separators, epoch, local label; operands have at least one component".into()]
    }
}

// ---- C18 ----

pub struct C18;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum PatCase {
    Match(AtomCase),
    /// must be refused
    Half(String),
}

/// The text, or with some character in it that versions seldom have.
fn odd(s: &mut Src, t: String, ascii: bool) -> String {
    if !s.chance(1, 5) {
        return t;
    }
    let c = match s.weighted(&[4, 2, if ascii { 0 } else { 3 }]) {
        0 => (0x20 + s.below(95) as u8) as char,
        1 => *s.pick(&['\n', '\r', '\t', '\0', '\u{b}', '\u{1f}', '\u{7f}']),
        _ => *s.pick(&['\u{e9}', '\u{df}', '\u{660}', '\u{a0}', '\u{85}', '\u{2028}', '\u{4e2d}', '\u{1f600}', '\u{301}']),
    };
    let mut cs: Vec<char> = t.chars().collect();
    let i = s.below_us(cs.len() + 1);
    cs.insert(i, c);
    gen::parsable(cs.into_iter().collect())
}

impl Prop for C18 {
    type Case = PatCase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a case is a wildcard or regex constraint and versions, or a half-anchored text; non-trivial if a pattern accepts one of its versions and rejects another, or the text is half-anchored; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 10_000_000, guided: 4_000_000 }
        } else {
            Plan { random: 550_000, guided: 200_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> PatCase {
        match s.weighted(&[6, 6, 2]) {
            0 => {
                let v = if s.chance(1, 3) { gen::version(s) } else { spec::operand(s) };
                let atom = spec::glob(s, &v);
                let versions = versions_near(s, &atom, 10).into_iter().map(|t| odd(s, t, false)).collect();
                PatCase::Match(AtomCase { atom, versions })
            }
            1 => {
                let atom = spec::regex(s);
                let versions = versions_near(s, &atom, 10).into_iter().map(|t| odd(s, t, true)).collect();
                PatCase::Match(AtomCase { atom, versions })
            }
            _ => {
                let body = match s.below(3) {
                    0 => spec::regex(s).text.trim_matches(|c| c == '^' || c == '$').to_string(),
                    1 => spec::operand(s),
                    _ => {
                        let v = spec::operand(s);
                        spec::glob(s, &v).text
                    }
                };
                let mut t: Vec<char> = body.chars().collect();
                if s.chance(1, 4) {
                    // anchors inside do not count
                    let i = s.below_us(t.len() + 1);
                    t.insert(i, *s.pick(&['^', '$']));
                }
                let body: String = t.into_iter().collect();
                let t = if s.chance(1, 2) { format!("^{}", body) } else { format!("{}$", body) };
                PatCase::Half(t)
            }
        }
    }
    fn check(&self, c: &PatCase, st: &mut Stats) -> Result<(), String> {
        match c {
            PatCase::Match(c) => {
                let (yes, no) = check_atom(c, st)?;
                st.label(kind_label(&c.atom.kind));
                st.nontrivial_if(yes > 0 && no > 0);
                st.label_if(c.atom.text.matches('*').count() > 1, "several '*'");
            }
            PatCase::Half(t) => {
                if t.starts_with('^') && t.ends_with('$') {
                    return Ok(());
                }
                ensure!(vspec(t).is_err(), "the half-anchored constraint {:?} is accepted", t);
                if t.matches(|c| c == '^' || c == '$').count() == 1 {
                    ensure!(vsoct(t).is_err(), "the half-anchored expression {:?} is accepted", t);
                    ensure!(tree(t).is_err(), "treeify accepts the half-anchored {:?}", t);
                }
                st.label("half-anchored");
                st.nontrivial();
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "wildcard patterns are over letters, digits and . - _ + ! (other characters are regex syntax in the implementation)".into(),
            "regexes: literals, '.', classes, \\d \\w \\s and their complements, groups, alternation and case folding inside groups, greedy and lazy repetition; versions tested against regexes are ASCII".into(),
        ]
    }
}

// ---- C19 ----

pub struct C19;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum TextCase {
    Simple(Atom),
    /// expression, its spelling, versions
    Compound(Ex, String, Vec<String>),
}

fn exactness<S: Spec>(how: &str, a: &Atom, c: &S) -> Result<(), String> {
    ensure!(c.get_spec() == a.text, "{} of {:?} reports the text {:?}", how, a.text, c.get_spec());
    ensure!(c.raw_value() == a.text, "{} of {:?} reports the raw value {:?}", how, a.text, c.raw_value());
    ensure!(c.is_exact() == a.exact, "{} of {:?} says exact: {}", how, a.text, c.is_exact());
    let want = if a.exact { Some(a.text.clone()) } else { None };
    ensure!(c.exact_value() == want, "{} of {:?} has the exact value {:?}", how, a.text, c.exact_value());
    Ok(())
}

fn compound<S: Spec>(how: &str, text: &str, want: &Ex, c: &S, versions: &[String]) -> Result<(), String> {
    ensure!(!c.is_exact(), "{} of {:?} is exact", how, text);
    ensure!(c.exact_value().is_none(), "{} of {:?} has the exact value {:?}", how, text, c.exact_value());
    let t = c.get_spec();
    ensure!(c.raw_value() == t, "{} of {:?}: raw value {:?}, text {:?}", how, text, c.raw_value(), t);
    let back = tree(&t).map_err(|e| format!("{} of {:?} reports the text {:?}, which cannot be read: {}", how, text, t, e))?;
    let got = crate::tree::to_ex(&back)?;
    ensure!(crate::tree::same(&got, &want.flat()), "{} of {:?} reports the text {:?}, another expression", how, text, t);
    for v in versions {
        let v = parsed(v)?;
        ensure!(back.test_match_version(&v) == c.test_match_version(&v), "{} of {:?} and its text {:?} differ on {:?}", how, text, t, v.as_str());
    }
    Ok(())
}

impl Prop for C19 {
    type Case = TextCase;
    const ID: &'static str = "C19";
    const RULE: &'static str = "a case is a simple constraint or a spelled expression; non-trivial if it is a compound of at least two members or a simple constraint other than a bare version; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 15_000_000, guided: 5_000_000 }
        } else {
            Plan { random: 150_000, guided: 50_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> TextCase {
        if s.chance(1, 4) {
            let x = spec::expr(s, &mut |s| spec::atom(s));
            let loose = s.chance(1, 2);
            let t = spec::spell(s, &x, loose);
            let mut atoms = vec![];
            x.atoms(&mut atoms);
            let a = (*s.pick(&atoms)).clone();
            let versions = versions_near(s, &a, 2);
            TextCase::Compound(x, t, versions)
        } else {
            let mut a = spec::atom(s);
            if a.kind.about() == Some(&a.text) && s.chance(1, 8) {
                // blanks are characters of a version
                let x = *s.pick(&[" ", "  ", "\t", "\n", "\u{a0}"]);
                a.text = if a.text.contains('!') || s.chance(1, 2) { format!("{}{}", a.text, x) } else { format!("{}{}", x, a.text) };
            }
            TextCase::Simple(a)
        }
    }
    fn check(&self, c: &TextCase, st: &mut Stats) -> Result<(), String> {
        match c {
            TextCase::Simple(a) => {
                let c = vspec(&a.text).map_err(|e| format!("the constraint {:?} is refused: {}", a.text, e))?;
                exactness("the constraint", a, &c)?;
                exactness("a clone", a, &c.clone())?;
                let x: VersionSpecOrConstraintTree = c.clone().into();
                exactness("the wrapped constraint", a, &x)?;
                ensure!(untreeify(&x).as_ref() == Ok(&a.text), "{:?} prints as {:?}", a.text, untreeify(&x));
                let x = vsoct(&a.text).map_err(|e| format!("the expression {:?} is refused: {}", a.text, e))?;
                if has_special(&a.text) {
                    ensure!(x.get_spec() == a.text && x.raw_value() == a.text, "the expression {:?} reports the text {:?}", a.text, x.get_spec());
                } else {
                    exactness("the expression", a, &x)?;
                }
                st.label(if a.exact { "exact" } else { "not exact" });
                st.label(kind_label(&a.kind));
                st.nontrivial_if(a.kind.about() != Some(&a.text));
                st.label_if(a.text.trim() != a.text, "with blanks around");
            }
            TextCase::Compound(x, t, versions) => {
                let c = tree(t).map_err(|e| format!("the expression {:?} is refused: {}", t, e))?;
                compound("treeify", t, x, &c, versions)?;
                let wrapped: VersionSpecOrConstraintTree = c.into();
                compound("the wrapped tree", t, x, &wrapped, versions)?;
                if has_special(t) {
                    let c = vsoct(t).map_err(|e| format!("the expression {:?} is refused: {}", t, e))?;
                    compound("the expression", t, x, &c, versions)?;
                }
                // members read one by one under one combinator
                if let Ex::And(xs) | Ex::Or(xs) = x {
                    let and = matches!(x, Ex::And(_));
                    let texts: Vec<String> = xs.iter().map(|y| y.flat().canonical()).collect();
                    let mut l: Vec<&str> = vec![if and { "," } else { "|" }];
                    l.extend(texts.iter().map(|t| &t[..]));
                    let c = list(l.clone()).map_err(|e| format!("the list {:?} is refused: {}", l, e))?;
                    compound("the list", &format!("{:?}", l), x, &c, versions)?;
                }
                st.label("compound");
                st.nontrivial_if(x.size() >= 2);
            }
        }
        Ok(())
    }
}

// ---- C21 ----

pub struct C21;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum CompatCase {
    Spec(AtomCase),
    Pair(Pair),
}

impl Prop for C21 {
    type Case = CompatCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "a case is '~=V' with versions, or a pair of versions for the operators; non-trivial if '~=V' accepts one of its versions and rejects another, or the pair's texts differ; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 12_000_000, guided: 6_000_000 }
        } else {
            Plan { random: 600_000, guided: 250_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> CompatCase {
        if s.chance(1, 4) {
            return CompatCase::Pair(any_pair(s));
        }
        let mut v = spec::operand(s);
        if !v.contains('.') {
            let at = v.find('+').unwrap_or_else(|| v.len());
            let n = gen::number(s);
            v.insert_str(at, &format!(".{}", n));
        }
        let atom = spec::compat_on(v);
        let versions = versions_near(s, &atom, 6);
        CompatCase::Spec(AtomCase { atom, versions })
    }
    fn check(&self, c: &CompatCase, st: &mut Stats) -> Result<(), String> {
        match c {
            CompatCase::Spec(c) => {
                let (yes, no) = check_atom(c, st)?;
                let v = match c.atom.kind.about() {
                    Some(v) => v,
                    None => return Ok(()),
                };
                let o = parsed(v)?;
                for t in &c.versions {
                    let w = parsed(t)?;
                    let want = c.atom.kind.accepts(t);
                    ensure!(w.compare_to_version(&o, &CompOp::Compatible) == want, "{:?} ~= {:?} is not {}", t, v, want);
                    ensure!(w.compare_to_version(&o, &CompOp::Incompatible) != want, "{:?} !~= {:?} is {}", t, v, want);
                    ensure!(w.compare_to_str(v, &CompOp::Compatible) == want, "{:?} ~= text {:?} is not {}", t, v, want);
                    ensure!(w.compare_to_str(v, &CompOp::Incompatible) != want, "{:?} !~= text {:?} is {}", t, v, want);
                }
                let starred = format!("{}.*", c.atom.text);
                ensure!(vspec(&starred).is_err(), "the constraint {:?} is accepted", starred);
                ensure!(vsoct(&starred).is_err(), "the expression {:?} is accepted", starred);
                ensure!(tree(&starred).is_err(), "treeify accepts {:?}", starred);
                st.nontrivial_if(yes > 0 && no > 0);
                st.label_if(yes > 0 && no > 0, "case with both answers");
            }
            CompatCase::Pair(p) => {
                let (a, b) = match (parse(&p.a), parse(&p.b)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Ok(()),
                };
                for (x, y) in &[(&a, &b), (&b, &a), (&a, &a)] {
                    let c = x.compare_to_version(y, &CompOp::Compatible);
                    let i = x.compare_to_version(y, &CompOp::Incompatible);
                    ensure!(c != i, "{:?} is both or neither compatible and incompatible with {:?}", x.as_str(), y.as_str());
                    ensure!(x.compare_to_str(y.as_str(), &CompOp::Compatible) == c, "{:?} ~= {:?} differs between values and text", x.as_str(), y.as_str());
                    ensure!(x.compare_to_str(y.as_str(), &CompOp::Incompatible) == i, "{:?} !~= {:?} differs between values and text", x.as_str(), y.as_str());
                }
                st.label("pair");
                st.nontrivial_if(p.a != p.b);
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["V and tested versions: ASCII and some caseless letters beyond; V has at least one '.'".into()]
    }
}

// ---- C10 ----

pub struct C10;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Wild {
    pub texts: Vec<String>,
    pub versions: Vec<String>,
}

const BITS: [&str; 60] = [
    "1.2", "1", "2.0", ">", "<", ">=", "<=", "==", "!=", "=", "~=", "!~=", "~", "!", "*", ".*", "^", "$", "(", ")", ",", "|", " ", "\t", "@", "+", "1!", "-",
    "_", ".", "[", "]", "{", "}", "?", "\\", "a", "dev", "post1", "rc", "é", "^1.*$", "^(1|2)$", "1.*.2", "**", "*.*", ">1,<2", "(1|2),3", "^[$", "=*",
    "!=startswith", "{,5}", "\\d", "(?P<x>", "[a-", "(?i)", "\n", "\0", "|,", "()",
];

/// Anything that could pass as a constraint.
pub fn wild(s: &mut Src) -> String {
    let mut t = match s.weighted(&[5, 4, 5, 2, 2, 1]) {
        0 => spec::atom(s).text,
        1 => {
            let x = spec::expr(s, &mut |s| spec::atom(s));
            let loose = s.chance(1, 2);
            spec::spell(s, &x, loose)
        }
        2 => {
            let mut t = String::new();
            while s.more(t.len(), 0, 60, 6, 7) {
                t.push_str(s.pick(&BITS));
            }
            t
        }
        3 => gen::text(s),
        4 => {
            let body = gen::text(s);
            match s.below(6) {
                0 => format!("^{}$", body),
                1 => format!("{}*", body),
                2 => format!("{}{}", s.pick(&["==", "=", "!=", "<", ">=", "~=", "!", "~", "<>", "===", "=>", ">>"]), body),
                3 => format!("={}.*", body),
                4 => format!("*{}", body),
                _ => format!("@{}", body),
            }
        }
        _ => {
            let k = 1usize << s.below(9);
            let u = s.pick(&["(", ")", "(1,", "1|", "1,", "*", "1.", "^", "$", "=", "(1|2),", "^1$|"]).to_string();
            let mut t = u.repeat(k);
            if s.chance(1, 2) {
                t.push_str("1");
            }
            if s.chance(1, 2) {
                t.push_str(&")".repeat(k));
            }
            t
        }
    };
    let mut edits = 0;
    while s.more(edits, 0, 4, 1, 3) {
        edits += 1;
        let mut cs: Vec<char> = t.chars().collect();
        let c = if s.chance(2, 3) {
            *s.pick(&['(', ')', ',', '|', '^', '$', '*', '=', '<', '>', '!', '~', '.', ' ', '@', '+', '[', '\\'])
        } else {
            gen::wide_char(s)
        };
        let i = s.below_us(cs.len() + 1);
        match s.below(3) {
            0 => cs.insert(i, c),
            1 if i < cs.len() => cs[i] = c,
            _ if i < cs.len() => {
                cs.remove(i);
            }
            _ => {}
        }
        t = cs.into_iter().collect();
    }
    t
}

fn use_it<S: Spec + Clone>(c: &S, versions: &[ronda::Version]) {
    let d = c.clone();
    for v in versions {
        let _ = d.test_match_version(v);
        let _ = c.test_match(v.as_str());
    }
    let _ = (c.get_spec(), c.raw_value(), c.exact_value(), c.is_exact());
}

fn use_tree(t: ConstraintTree, versions: &[ronda::Version]) {
    use_it(&t, versions);
    let _ = (t == t.clone(), t != t.clone());
    let _ = format!("{:?} {:#?}", t, t);
    let x: VersionSpecOrConstraintTree = t.into();
    let _ = untreeify(&x);
    let _ = format!("{:?} {:#?}", x, x);
    use_it(&x, &versions[..versions.len().min(1)]);
    let _ = x == x.clone();
}

impl Prop for C10 {
    type Case = Wild;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a case is one to four texts, read alone and as lists, and versions; non-trivial if some text contains an operator, wildcard, anchor, parenthesis or separator character; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 6_000_000, guided: 2_000_000 }
        } else {
            Plan { random: 60_000, guided: 20_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Wild {
        let mut texts = vec![];
        while s.more(texts.len(), 1, 4, 1, 3) {
            texts.push(wild(s));
        }
        let mut versions = vec![];
        while s.more(versions.len(), 1, 4, 1, 2) {
            let t = if s.chance(1, 3) {
                gen::text(s)
            } else if s.chance(1, 2) {
                texts[0].chars().filter(|c| c.is_ascii_alphanumeric() || ".-_".contains(*c)).take(200).collect()
            } else {
                gen::version(s)
            };
            versions.push(gen::parsable(t));
        }
        Wild { texts, versions }
    }
    fn check(&self, c: &Wild, st: &mut Stats) -> Result<(), String> {
        let mut vs: Vec<ronda::Version> = c.versions.iter().filter_map(|t| parse(t)).collect();
        vs.extend(["1.2", "", "1!2.dev0+l"].iter().filter_map(|t| parse(t)));
        for t in &c.texts {
            let (a, b, d) = (vspec(t), vsoct(t), tree(t));
            st.label(if a.is_ok() { "simple: accepted" } else { "simple: refused" });
            st.label(if d.is_ok() { "expression: accepted" } else { "expression: refused" });
            if let Ok(x) = a {
                use_it(&x, &vs);
                let _ = x == x.clone();
                let y: VersionSpecOrConstraintTree = x.into();
                let _ = format!("{:?} {:#?}", y, y);
                let _ = untreeify(&y);
                let _ = y == y.clone();
            }
            if let Ok(x) = b {
                use_it(&x, &vs);
                let _ = format!("{:?} {:#?}", x, x);
                let _ = untreeify(&x);
                let _ = x == x.clone();
            }
            if let Ok(x) = d {
                use_tree(x, &vs);
            }
        }
        let all: Vec<&str> = c.texts.iter().map(|t| &t[..]).collect();
        for head in &[",", "|", "", "&"] {
            let mut l = vec![*head];
            l.extend(&all);
            if let Ok(x) = list(l) {
                st.label("list: accepted");
                use_tree(x, &vs);
            }
        }
        for l in vec![all.clone(), vec![], vec![","], vec!["|"], vec!["", "1"]] {
            if let Ok(x) = list(l) {
                use_tree(x, &vs);
            }
        }
        st.nontrivial_if(c.texts.iter().any(|t| t.contains(|c| "<>=!~*^$()|,@".contains(c))));
        st.label_if(c.texts.iter().any(|t| !t.is_ascii()), "non-ASCII");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["nesting depth up to about 500, texts up to some ten thousand bytes".into()]
    }
}
