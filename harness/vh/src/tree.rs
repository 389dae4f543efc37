//! C11-C14: expressions and constraint trees.
use crate::cons::{eval, versions_near};
use crate::ensure;
use crate::util::*;
use ronda::verif_hooks::Spec;
use ronda::{untreeify, Combinator, ConstraintTree, VersionSpecOrConstraintTree};
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model;
use vcore::runner::Plan;
use vcore::spec::{self, Atom, Ex};
use vcore::{Prop, Src, Stats};

/// Shape of a tree as texts: members that stand alone in a tree are that tree.
#[derive(Debug, Clone, PartialEq)]
pub enum Shape {
    Leaf(String),
    And(Vec<Shape>),
    Or(Vec<Shape>),
}

pub fn to_ex(t: &ConstraintTree) -> Result<Shape, String> {
    let mut xs = vec![];
    for p in &t.parts {
        xs.push(match p {
            VersionSpecOrConstraintTree::VersionSpec(s) => Shape::Leaf(s.get_spec()),
            VersionSpecOrConstraintTree::ConstraintTree(t) => to_ex(t)?,
        });
    }
    if xs.len() == 1 {
        return Ok(xs.remove(0));
    }
    match t.combinator {
        Combinator::And => Ok(Shape::And(xs)),
        Combinator::Or => Ok(Shape::Or(xs)),
        Combinator::None => Err(format!("a tree of {} members without a combinator", xs.len())),
    }
}

pub fn same(got: &Shape, want: &Ex) -> bool {
    match (got, want) {
        (Shape::Leaf(t), Ex::Atom(a)) => *t == a.text,
        (Shape::And(xs), Ex::And(ys)) | (Shape::Or(xs), Ex::Or(ys)) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| same(x, y)),
        _ => false,
    }
}

/// Build the tree directly, without parsing the expression.
fn build(x: &Ex) -> Result<VersionSpecOrConstraintTree, String> {
    Ok(match x {
        Ex::Atom(a) => vspec(&a.text).map_err(|e| format!("the constraint {:?} is refused: {}", a.text, e))?.into(),
        Ex::And(xs) | Ex::Or(xs) => {
            let combinator = if matches!(x, Ex::And(_)) { Combinator::And } else { Combinator::Or };
            ConstraintTree { combinator, parts: xs.iter().map(build).collect::<Result<_, _>>()? }.into()
        }
    })
}

/// The same with some members wrapped into trees of their own, any combinator.
fn build_wrapped(x: &Ex, wrap: &mut u64) -> Result<VersionSpecOrConstraintTree, String> {
    let mut t: VersionSpecOrConstraintTree = match x {
        Ex::Atom(_) => build(x)?,
        Ex::And(xs) | Ex::Or(xs) => {
            let combinator = if matches!(x, Ex::And(_)) { Combinator::And } else { Combinator::Or };
            ConstraintTree { combinator, parts: xs.iter().map(|y| build_wrapped(y, wrap)).collect::<Result<_, _>>()? }.into()
        }
    };
    if *wrap != 0 {
        *wrap = vcore::src::mix(*wrap, 1) | 1;
        for i in 0..[0, 0, 0, 0, 1, 1, 2, 1][(*wrap >> 8) as usize % 8] {
            let combinator = match (*wrap >> (16 + 4 * i)) % 3 {
                0 => Combinator::And,
                1 => Combinator::Or,
                _ => Combinator::None,
            };
            t = ConstraintTree { combinator, parts: vec![t] }.into();
        }
    }
    Ok(t)
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Expr {
    pub ex: Ex,
    pub text: String,
    pub versions: Vec<String>,
    /// which members of the tree built by hand stand alone in a tree of their own (0: none)
    #[serde(default)]
    pub wrap: u64,
}

/// Atoms around few versions, so that several of them matter for one tested version.
fn expr_case(s: &mut Src, nver: usize) -> Expr {
    let fam: Vec<String> = {
        let mut f: Vec<String> = vec![];
        while s.more(f.len(), 1, 4, 2, 3) {
            f.push(if f.is_empty() || s.chance(1, 3) {
                spec::operand(s)
            } else {
                let t: String = spec::near_text(s, &f[0]);
                if t.is_empty() || t.contains(char::is_whitespace) || t.starts_with('!') || t.starts_with('+') || t.ends_with('.') || vcore::model::parse(&t).map_or(true, |t| t.is_empty()) {
                    spec::operand(s)
                } else {
                    t
                }
            });
        }
        f
    };
    let ex = spec::expr(s, &mut |s| match s.weighted(&[10, 2, 2, 3]) {
        0 => {
            let v = s.pick(&fam).clone();
            spec::simple_on(s, v)
        }
        1 => {
            let v = s.pick(&fam).clone();
            spec::glob(s, &v)
        }
        2 => spec::regex(s),
        _ => spec::simple(s),
    });
    let mut versions = vec![];
    let ex = if s.chance(1, 16) {
        let v = s.pick(&fam).clone();
        versions.push(v.clone());
        deepened(s, ex, &v)
    } else {
        ex
    };
    let loose = s.chance(1, 2);
    let text = spec::spell(s, &ex, loose);
    let mut atoms = vec![];
    ex.atoms(&mut atoms);
    while s.more(versions.len(), 1, nver, 4, 5) {
        if s.chance(1, 3) {
            let a = (*s.pick(&atoms)).clone();
            versions.push(versions_near(s, &a, 1).remove(0));
        } else {
            let t = s.pick(&fam).clone();
            versions.push(spec::near_text(s, &t));
        }
    }
    let wrap = if s.chance(1, 2) { s.below(1 << 16) } else { 0 };
    Expr { ex, text, versions, wrap }
}

/// The expression inside many levels that leave the answer for `v` to it.
fn deepened(s: &mut Src, x: Ex, v: &str) -> Ex {
    if x.depth() > 20 || x.size() > 40 {
        return x;
    }
    let cmp = |op: model::Op| Ex::Atom(Atom { text: format!("{}{}", op.sign(), v), exact: op == model::Op::Eq, kind: spec::Kind::Cmp(op, v.to_string()) });
    let most = [6, 30, 120][s.weighted(&[8, 6, 1])];
    let n = 1 + s.below_us(most).min(20_000 / (v.len() + 4));
    let side = s.below(3);
    let mut and = s.chance(1, 2);
    let mut x = x;
    for i in 0..n {
        let y = if and { cmp(model::Op::Ge) } else { cmp(*s.pick(&[model::Op::Ne, model::Op::Lt])) };
        let xs = if side == 0 || side == 1 && i % 2 == 0 { vec![x, y] } else { vec![y, x] };
        x = if and { Ex::And(xs) } else { Ex::Or(xs) };
        and = !and;
    }
    x
}

fn has_special(t: &str) -> bool {
    t.contains(|c| "()|,^$".contains(c))
}

fn expr_labels(st: &mut Stats, c: &Expr) {
    let (d, n) = (c.ex.depth(), c.ex.size());
    st.label_if(d == 0, "single constraint");
    st.label_if(d >= 2, "nested");
    st.label_if(d > 50, "more than 50 levels");
    st.label_if(n > 20, "more than 20 constraints");
    st.label_if(c.text.contains('^'), "with regex");
    st.label_if(c.text.contains(char::is_whitespace), "with whitespace");
}

// ---- C11 ----

pub struct C11;

impl Prop for C11 {
    type Case = Expr;
    const ID: &'static str = "C11";
    const RULE: &'static str = "a case is an expression, a spelling of it and versions; non-trivial if it has at least two constraints and one of its versions is accepted by one constraint and not by another; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 12_000_000, guided: 4_000_000 }
        } else {
            Plan { random: 120_000, guided: 40_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Expr {
        expr_case(s, 8)
    }
    fn check(&self, c: &Expr, st: &mut Stats) -> Result<(), String> {
        let t = &c.text[..];
        let mut ways: Vec<(&str, VersionSpecOrConstraintTree)> = vec![];
        ways.push(("treeify", tree(t).map_err(|e| format!("treeify refuses {:?}: {}", t, e))?.into()));
        if has_special(t) || t == t.trim() {
            ways.push(("reading", vsoct(t).map_err(|e| format!("the expression {:?} is refused: {}", t, e))?));
        }
        ways.push(("the tree built by hand for", build(&c.ex)?));
        if c.wrap != 0 {
            ways.push(("the tree with lone members built by hand for", build_wrapped(&c.ex, &mut c.wrap.clone())?));
        }
        if let Ex::And(xs) | Ex::Or(xs) = &c.ex {
            let texts: Vec<String> = xs.iter().map(|y| y.flat().canonical()).collect();
            let mut l: Vec<&str> = vec![if matches!(c.ex, Ex::And(_)) { "," } else { "|" }];
            l.extend(texts.iter().map(|t| &t[..]));
            ways.push(("the list for", list(l.clone()).map_err(|e| format!("the list {:?} is refused: {}", l, e))?.into()));
            if c.wrap % 4 == 1 {
                // one member more: the empty text, which accepts the empty version only
                l.insert(1 + (c.wrap / 4) as usize % l.len(), "");
                let x = list(l.clone()).map_err(|e| format!("the list {:?} is refused: {}", l, e))?;
                for v in &c.versions {
                    let empty = toks(v)?.iter().all(|k| matches!(k, vcore::model::Tok::Empty));
                    let want = if matches!(c.ex, Ex::And(_)) { empty && c.ex.accepts(v) } else { empty || c.ex.accepts(v) };
                    let got = eval("the list", &format!("{:?}", l), &x, v)?;
                    ensure!(got == want, "the list {:?} {} {:?}, the formula does not", l, if got { "accepts" } else { "rejects" }, v);
                }
                st.label("list with an empty member");
            }
        }
        let mut atoms = vec![];
        c.ex.atoms(&mut atoms);
        for v in &c.versions {
            let want = c.ex.accepts(v);
            for (how, x) in &ways {
                let got = eval(how, t, x, v)?;
                ensure!(got == want, "{} {:?} {} {:?}, the formula does not", how, t, if got { "accepts" } else { "rejects" }, v);
            }
            st.label(if want { "accepts" } else { "rejects" });
            if atoms.len() >= 2 && atoms.len() <= 80 {
                let n = atoms.iter().filter(|a| a.kind.accepts(v)).count();
                st.nontrivial_if(n > 0 && n < atoms.len());
            } else {
                st.nontrivial_if(atoms.len() > 80);
            }
        }
        expr_labels(st, c);
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["versions: ASCII and some caseless letters beyond; nesting up to 300 levels".into()]
    }
}

// ---- C12 ----

pub struct C12;

impl Prop for C12 {
    type Case = Expr;
    const ID: &'static str = "C12";
    const RULE: &'static str = "a case is an expression and a spelling of it; non-trivial if it has at least two constraints; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 8_000_000, guided: 3_000_000 }
        } else {
            Plan { random: 80_000, guided: 30_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Expr {
        let mut c = expr_case(s, 1);
        c.versions.clear();
        c
    }
    fn check(&self, c: &Expr, st: &mut Stats) -> Result<(), String> {
        let t = &c.text[..];
        let want = c.ex.flat();
        let mut first: Option<ConstraintTree> = None;
        let mut text = t.to_string();
        for round in 0..3 {
            let got = tree(&text).map_err(|e| format!("treeify refuses {:?}: {}", text, e))?;
            let shape = to_ex(&got)?;
            ensure!(same(&shape, &want), "{:?} is read as {:?}", text, shape);
            match &first {
                None => first = Some(got.clone()),
                Some(f) => ensure!(*f == got, "{:?} and its printed form {:?} give trees that are not equal", t, text),
            }
            let spec = got.get_spec();
            let x: VersionSpecOrConstraintTree = got.into();
            let printed = untreeify(&x).map_err(|e| format!("the tree of {:?} does not print: {}", text, e))?;
            ensure!(spec == printed, "the tree of {:?} has the text {:?} and prints as {:?}", text, spec, printed);
            ensure!(round == 0 || printed == text, "{:?} prints as {:?}, which prints as {:?}", t, text, printed);
            if has_special(&text) {
                match vsoct(&text).map_err(|e| format!("the expression {:?} is refused: {}", text, e))? {
                    VersionSpecOrConstraintTree::ConstraintTree(y) => {
                        let shape = to_ex(&y)?;
                        ensure!(same(&shape, &want), "the expression {:?} is read as {:?}", text, shape)
                    }
                    VersionSpecOrConstraintTree::VersionSpec(y) => {
                        ensure!(matches!(&want, Ex::Atom(a) if a.text == y.get_spec()), "the expression {:?} is read as the constraint {:?}", text, y.get_spec())
                    }
                }
            }
            text = printed;
        }
        // from a list: the combinator and the members as they read alone
        if let Ex::And(xs) | Ex::Or(xs) = &c.ex {
            let and = matches!(c.ex, Ex::And(_));
            let texts: Vec<String> = xs.iter().take(40).map(|y| y.flat().canonical()).collect();
            let n = if c.wrap % 5 == 1 { 1 } else { texts.len() };
            let mut l: Vec<&str> = vec![if and { "," } else { "|" }];
            l.extend(texts[..n].iter().map(|t| &t[..]));
            let got = list(l.clone()).map_err(|e| format!("the list {:?} is refused: {}", l, e))?;
            ensure!(got.combinator == if and { Combinator::And } else { Combinator::Or }, "the list {:?} has the combinator {:?}", l, got.combinator);
            ensure!(got.parts.len() == n, "the list {:?} has {} members", l, got.parts.len());
            for (t, p) in texts[..n].iter().zip(&got.parts) {
                let alone = vsoct(t).map_err(|e| format!("the expression {:?} is refused: {}", t, e))?;
                ensure!(*p == alone, "the list {:?} has a member {:?} that is not {:?} read alone", l, p, t);
            }
            st.label("list");
        }
        // a tree put together by hand prints as an expression of the same formula
        let made = build_wrapped(&c.ex, &mut c.wrap.clone())?;
        let printed = untreeify(&made).map_err(|e| format!("a tree built by hand for {:?} (lone members: {}) does not print: {}", t, c.wrap, e))?;
        ensure!(made.get_spec() == printed, "a tree built by hand has the text {:?} and prints as {:?}", made.get_spec(), printed);
        let shape = to_ex(&tree(&printed).map_err(|e| format!("a tree built by hand for {:?} prints as {:?}, which is refused: {}", t, printed, e))?)?;
        ensure!(same(&shape, &want), "a tree built by hand for {:?} (lone members: {}) prints as {:?}, which is read as {:?}", t, c.wrap, printed, shape);
        // a tree without members has no expression, nor has one with such a member
        if c.wrap % 4 == 2 {
            let no = |k: u64| ConstraintTree { combinator: [Combinator::And, Combinator::Or, Combinator::None][k as usize % 3].clone(), parts: vec![] };
            let empty: VersionSpecOrConstraintTree = no(c.wrap / 4).into();
            ensure!(untreeify(&empty).is_err(), "a tree without members prints as {:?}", untreeify(&empty));
            if let VersionSpecOrConstraintTree::ConstraintTree(mut x) = made {
                let at = (c.wrap / 16) as usize % (x.parts.len() + 1);
                x.parts.insert(at, empty);
                let x = x.into();
                ensure!(untreeify(&x).is_err(), "the tree of {:?} with a further member without members prints as {:?}", t, untreeify(&x));
                st.label("empty member");
            }
        }
        st.label_if(c.wrap != 0, "lone members");
        st.nontrivial_if(c.ex.size() >= 2);
        expr_labels(st, c);
        Ok(())
    }
}

// ---- C13 ----

pub struct C13;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Raw {
    pub text: String,
}

#[derive(Debug, PartialEq)]
enum T {
    Open,
    Close,
    Join,
    Operand(String),
}

fn tokens(text: &str) -> Vec<T> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_whitespace() {
            i += 1;
            continue;
        }
        match cs[i] {
            '(' => out.push(T::Open),
            ')' => out.push(T::Close),
            '|' | ',' => out.push(T::Join),
            c => {
                let mut j = i;
                let end = if c == '^' { cs[i..].iter().position(|c| *c == '$') } else { None };
                match end {
                    Some(e) => j += e + 1,
                    None => {
                        while j < cs.len() && !"()|,".contains(cs[j]) {
                            j += 1;
                        }
                    }
                }
                out.push(T::Operand(cs[i..j].iter().collect::<String>().trim().to_string()));
                i = j;
                continue;
            }
        }
        i += 1;
    }
    out
}

/// Recursive descent would overflow on deep input: explicit depth.
fn well_formed(ts: &[T]) -> bool {
    let mut depth = 0i64;
    let mut operand = true;
    for t in ts {
        match t {
            T::Open if operand => depth += 1,
            T::Operand(_) if operand => operand = false,
            T::Join if !operand => operand = true,
            T::Close if !operand && depth > 0 => depth -= 1,
            _ => return false,
        }
    }
    depth == 0 && !operand
}

impl Prop for C13 {
    type Case = Raw;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a case is a text with expression syntax; non-trivial if it has at least three tokens and is not a well-formed expression of valid constraints; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 25_000_000, guided: 10_000_000 }
        } else {
            Plan { random: 250_000, guided: 100_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Raw {
        const ATOMS: [&str; 26] = [
            "1.2", "1", ">=2.0", "<3", "!=1.5", "=1.*", "*", "1.2.*", "1.*.3", "^1[.]2$", "^(1|2),3$", "1.0@x", "~=1.4", "dev", "1!2", "a",
            // invalid ones
            "1!2!3", "=>1", "^1", "1$", "1+2+3", "~=1.2.*", "^[$", "!1", "x!1", "<",
        ];
        let text = match s.weighted(&[6, 5, 1]) {
            0 => {
                // a well-formed expression with a few token edits
                let x = spec::expr(s, &mut |s| {
                    let t = if s.chance(1, 40) { *s.pick(&ATOMS) } else { *s.pick(&ATOMS[..16]) };
                    Atom { text: t.to_string(), kind: spec::Kind::Any, exact: false }
                });
                let loose = s.chance(1, 3);
                let t = spec::spell(s, &x, loose);
                let mut cs: Vec<char> = t.chars().collect();
                let k = s.below(4);
                for _ in 0..k {
                    let spots: Vec<usize> = (0..cs.len()).filter(|i| "()|,".contains(cs[*i])).collect();
                    if !spots.is_empty() && s.chance(2, 3) {
                        let i = *s.pick(&spots);
                        match s.below(5) {
                            0 => {
                                cs.remove(i);
                            }
                            1 => {
                                let c = cs[i];
                                cs.insert(i, c)
                            }
                            2 => cs[i] = *s.pick(&['(', ')', '|', ',', ' ']),
                            3 => {
                                let j = *s.pick(&spots);
                                cs.swap(i, j)
                            }
                            _ => {
                                let c = *s.pick(&['(', ')', '|', ',']);
                                cs.insert(i + s.below_us(2), c)
                            }
                        }
                    } else {
                        let i = s.below_us(cs.len() + 1);
                        let c = *s.pick(&['(', ')', '|', ',', ' ', '^', '$', '=', '!', '1']);
                        cs.insert(i, c);
                    }
                }
                cs.into_iter().collect()
            }
            1 => {
                let mut t = String::new();
                let mut n = 0;
                while s.more(n, 0, 14, 6, 7) {
                    n += 1;
                    match s.weighted(&[5, 2, 2, 2, 2, 1]) {
                        0 => t.push_str(s.pick(&ATOMS[..16])),
                        1 => t.push('('),
                        2 => t.push(')'),
                        3 => t.push(','),
                        4 => t.push('|'),
                        _ => t.push_str(s.pick(&[" ", "  ", "\t", "\n", "\u{a0}", "1$", "^1", "=>2", "()", "1!2!3"])),
                    }
                }
                t
            }
            _ => {
                let t = crate::cons::wild(s);
                if has_special(&t) {
                    t
                } else {
                    t + &gen::version(s) + ","
                }
            }
        };
        Raw { text }
    }
    fn check(&self, c: &Raw, st: &mut Stats) -> Result<(), String> {
        let t = &c.text[..];
        let ts = tokens(t);
        let form = well_formed(&ts);
        let bad = ts.iter().filter_map(|x| match x {
            T::Operand(o) => Some(o),
            _ => None,
        });
        let bad: Vec<&String> = bad.filter(|o| vspec(o).is_err()).collect();
        let ok = form && bad.is_empty();
        let why = || if !form { "it is not well formed".to_string() } else { format!("{:?} in it is no constraint", bad) };
        let got = tree(t);
        ensure!(ok || got.is_err(), "treeify reads {:?} as {:?} although {}", t, got.as_ref().ok().map(to_ex), why());
        if has_special(t) {
            let got = vsoct(t);
            ensure!(ok || got.is_err(), "the expression {:?} is read as {:?} although {}", t, got.as_ref().ok().map(|x| x.get_spec()), why());
            // as a member of a list
            for l in &[vec![",", t, "1.0"], vec!["|", "1.0", t], vec![",", t]] {
                ensure!(ok || list(l.clone()).is_err(), "the list {:?} is accepted although in its member {}", l, why());
            }
        }
        // a constraint cannot sit next to another without ',' or '|', nor an operator without operands
        if ok && t.len() < 150 {
            for u in &[format!("({}", t), format!("{})", t), format!("{},", t), format!("|{}", t), format!("{}||1", t), format!("{},()", t), format!("({})1", t), format!("1({})", t), format!("{},,{}", t, t)] {
                if well_formed(&tokens(u)) {
                    continue;
                }
                ensure!(tree(u).is_err(), "treeify accepts {:?}", u);
                ensure!(vsoct(u).is_err(), "the expression {:?} is accepted", u);
            }
        }
        st.nontrivial_if(!ok && ts.len() >= 3);
        st.label(if ok {
            "well formed"
        } else if !form {
            "malformed"
        } else {
            "invalid constraint"
        });
        st.label_if(got.is_err() && ok, "well formed but refused");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["whether one operand is a valid constraint is taken from reading it alone (decided by C09, C18, C21)".into()]
    }
}

// ---- C14 ----

pub struct C14;

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Tr {
    Leaf(String),
    Node(u8, Vec<Tr>),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Trees {
    pub trees: Vec<Tr>,
    pub versions: Vec<String>,
}

impl Tr {
    fn deep(&self) -> usize {
        match self {
            Tr::Leaf(_) => 0,
            Tr::Node(_, xs) => 1 + xs.iter().map(|x| x.deep()).max().unwrap_or(0),
        }
    }
    fn build(&self) -> Result<VersionSpecOrConstraintTree, String> {
        Ok(match self {
            Tr::Leaf(t) => vspec(t).map_err(|e| format!("the constraint {:?} is refused: {}", t, e))?.into(),
            Tr::Node(k, xs) => ConstraintTree {
                combinator: match k {
                    0 => Combinator::And,
                    1 => Combinator::Or,
                    _ => Combinator::None,
                },
                parts: xs.iter().map(|x| x.build()).collect::<Result<_, _>>()?,
            }
            .into(),
        })
    }
}

fn gen_tree(s: &mut Src, depth: usize, fam: &[String]) -> Tr {
    if depth == 0 || s.chance(2, 5) {
        let v = s.pick(fam).clone();
        let t = match s.weighted(&[6, 1, 1]) {
            0 => spec::simple_on(s, v).text,
            1 => spec::glob(s, &v).text,
            _ => spec::regex(s).text,
        };
        return Tr::Leaf(t);
    }
    let k = s.weighted(&[4, 4, 1]) as u8;
    let mut xs = vec![];
    while s.more(xs.len(), 0, 6, 2, 3) {
        xs.push(gen_tree(s, depth - 1, fam));
    }
    if s.chance(1, 60) {
        // very many members
        let x = gen_tree(s, 0, fam);
        if let Tr::Leaf(t) = &x {
            let n = gen::scale(s, 20_000 / (t.len() + 8)).min(1200);
            let at = s.below_us(xs.len() + 1);
            xs.splice(at..at, std::iter::repeat(x).take(n));
        }
    }
    let mut t = Tr::Node(k, xs);
    if s.chance(1, 120) {
        // very many levels
        let side = gen_tree(s, 0, fam);
        let n = gen::scale(s, 200);
        for i in 0..n {
            let k = if s.chance(1, 40) { 2 } else { (i % 2) as u8 };
            t = Tr::Node(k, match i % 3 {
                0 => vec![t, side.clone()],
                1 => vec![side.clone(), t],
                _ => vec![t],
            });
        }
    }
    t
}

/// One of the places, the outermost more often than the others.
fn place(s: &mut Src, n: usize) -> usize {
    match s.below(4) {
        0 => n - 1,
        1 => 0,
        _ => s.below_us(n),
    }
}

/// One small change somewhere (or none).
fn tweak(s: &mut Src, t: &Tr, fam: &[String]) -> Tr {
    match t {
        Tr::Leaf(x) => match s.below(6) {
            0 => Tr::Leaf(x.clone()),
            1 => gen_tree(s, 0, fam),
            2 => Tr::Node(s.below(3) as u8, vec![t.clone()]),
            3 => {
                let y = gen::recase(s, x);
                Tr::Leaf(if vspec(&y).is_ok() { y } else { x.clone() })
            }
            4 => {
                // an equal version spelled otherwise
                let y = format!("{}.0", x);
                Tr::Leaf(if vspec(&y).is_ok() { y } else { x.clone() })
            }
            _ => {
                let y = x.replacen('.', "-", 1);
                Tr::Leaf(if vspec(&y).is_ok() { y } else { x.clone() })
            }
        },
        Tr::Node(k, xs) => {
            let mut xs = xs.clone();
            let mut k = *k;
            let n = xs.len();
            match s.weighted(&[3, 2, 2, 2, 1, if t.deep() > 12 { 60 } else { 5 }, 1]) {
                0 => k = (k + 1 + s.below(2) as u8) % 3,
                1 if n > 0 => {
                    let i = place(s, n);
                    xs.remove(i);
                }
                2 => {
                    let i = s.below_us(n + 1);
                    let x = if n > 0 && s.chance(1, 2) { s.pick(&xs).clone() } else { gen_tree(s, 1, fam) };
                    xs.insert(i, x);
                }
                3 if n > 1 => {
                    let i = s.below_us(n);
                    let j = s.below_us(n);
                    xs.swap(i, j);
                }
                4 => return Tr::Node(s.below(3) as u8, vec![t.clone()]),
                5 if n > 0 => {
                    let i = match xs.iter().position(|x| matches!(x, Tr::Node(..))) {
                        Some(i) if s.chance(2, 3) => i,
                        _ => place(s, n),
                    };
                    xs[i] = tweak(s, &xs[i], fam);
                }
                _ => {}
            }
            Tr::Node(k, xs)
        }
    }
}

impl Prop for C14 {
    type Case = Trees;
    const ID: &'static str = "C14";
    const RULE: &'static str = "a case is two to four constraint trees, most one change apart; non-trivial if the first two differ or are distinct equal objects with at least two members; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 15_000_000, guided: 6_000_000 }
        } else {
            Plan { random: 300_000, guided: 120_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Trees {
        let mut fam = vec![spec::operand(s)];
        while s.more(fam.len(), 1, 3, 1, 2) {
            fam.push(spec::operand(s));
        }
        let depth = 1 + s.below_us(4);
        let a = gen_tree(s, depth, &fam);
        let mut trees = vec![a];
        while s.more(trees.len(), 2, 4, 1, 2) {
            let b = s.pick(&trees).clone();
            trees.push(if s.chance(1, 4) { b } else { tweak(s, &b, &fam) });
        }
        let mut versions = vec![];
        while s.more(versions.len(), 1, 3, 1, 2) {
            let t = s.pick(&fam).clone();
            versions.push(spec::near_text(s, &t));
        }
        Trees { trees, versions }
    }
    fn check(&self, c: &Trees, st: &mut Stats) -> Result<(), String> {
        let built: Vec<VersionSpecOrConstraintTree> = c.trees.iter().map(|t| t.build()).collect::<Result<_, _>>()?;
        let vs: Vec<ronda::Version> = c.versions.iter().filter_map(|t| parse(t)).collect();
        let n = built.len();
        let mut m = vec![false; n * n];
        for i in 0..n {
            for j in 0..n {
                let (x, y) = (&built[i], &built[j]);
                let eq = x == y;
                m[i * n + j] = eq;
                let want = c.trees[i] == c.trees[j];
                ensure!(eq == want, "{:?} == {:?} is {}", c.trees[i], c.trees[j], eq);
                ensure!((x != y) != eq, "{:?} != {:?} is {} too", c.trees[i], c.trees[j], eq);
                let inner = match (x, y) {
                    (VersionSpecOrConstraintTree::ConstraintTree(p), VersionSpecOrConstraintTree::ConstraintTree(q)) => Some((p == q, p != q)),
                    (VersionSpecOrConstraintTree::VersionSpec(p), VersionSpecOrConstraintTree::VersionSpec(q)) => Some((p == q, p != q)),
                    _ => None,
                };
                if let Some((e, ne)) = inner {
                    ensure!(e == want && ne != want, "unwrapped, {:?} == {:?} is {}", c.trees[i], c.trees[j], e);
                }
                if eq {
                    for v in &vs {
                        ensure!(
                            x.test_match_version(v) == y.test_match_version(v),
                            "the equal constraints {:?} and {:?} differ on {:?}", c.trees[i], c.trees[j], v.as_str()
                        );
                    }
                }
            }
            let k = built[i].clone();
            ensure!(k == built[i] && built[i] == k, "a clone of {:?} is not equal to it", c.trees[i]);
            let k2 = match &built[i] {
                VersionSpecOrConstraintTree::ConstraintTree(p) => p.clone() == *p,
                VersionSpecOrConstraintTree::VersionSpec(p) => p.clone() == *p,
            };
            ensure!(k2, "an unwrapped clone of {:?} is not equal to it", c.trees[i]);
            for v in &vs {
                ensure!(k.test_match_version(v) == built[i].test_match_version(v), "a clone of {:?} differs from it on {:?}", c.trees[i], v.as_str());
            }
        }
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    ensure!(!(m[i * n + j] && m[j * n + k]) || m[i * n + k], "equality is not transitive on {:?}", c.trees);
                }
            }
        }
        let big = |t: &Tr| matches!(t, Tr::Node(_, xs) if xs.len() >= 2);
        st.nontrivial_if(c.trees[0] != c.trees[1] || big(&c.trees[0]));
        st.label(if m[1] { "first two equal" } else { "first two differ" });
        Ok(())
    }
}
