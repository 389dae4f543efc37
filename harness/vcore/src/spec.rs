//! Constraints: atoms with their meaning, expressions with their trees.
use crate::gen;
use crate::model::{self, Op, OPS};
use crate::rx::{self, Rx};
use crate::src::Src;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Cmp(Op, String),
    Starts(String),
    NotStarts(String),
    Compat(String),
    Any,
    Exact(String),
    Glob(String),
    Regex(Rx),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Atom {
    pub text: String,
    pub kind: Kind,
    /// bare version, '==' or '@' spelling
    pub exact: bool,
}

impl Kind {
    /// Does it accept the (ASCII, parsing) version?
    pub fn accepts(&self, v: &str) -> bool {
        self.accepts_made(v, &|| model::parse(v).expect("model: version parses"))
    }
    /// Does it accept a version with this text and these components?
    pub fn accepts_made(&self, v: &str, toks: &dyn Fn() -> Vec<model::Tok>) -> bool {
        let other = |t: &str| model::parse(t).expect("model: constraint version parses");
        match self {
            Kind::Cmp(op, t) => op.holds(model::cmp(&toks(), &other(t))),
            Kind::Starts(t) => model::startswith(&toks(), &other(t)),
            Kind::NotStarts(t) => !model::startswith(&toks(), &other(t)),
            Kind::Compat(t) => {
                let v = toks();
                let series = &t[..t.rfind('.').expect("model: series")];
                Op::Ge.holds(model::cmp(&v, &other(t))) && model::startswith(&v, &other(series))
            }
            Kind::Any => true,
            Kind::Exact(t) => v == t,
            Kind::Glob(p) => model::glob(p.as_bytes(), v.as_bytes()),
            Kind::Regex(r) => r.matches(v),
        }
    }
    /// The version text it is about, if any.
    pub fn about(&self) -> Option<&str> {
        match self {
            Kind::Cmp(_, t) | Kind::Starts(t) | Kind::NotStarts(t) | Kind::Compat(t) | Kind::Exact(t) => Some(t),
            _ => None,
        }
    }
}

/// A version text usable inside a constraint.
pub fn operand(s: &mut Src) -> String {
    let mut v = gen::vs(s);
    if v.comps.is_empty() {
        v.comps.push(gen::Comp::Num("1".into()));
    }
    if v.comps.len() > 60 && s.chance(3, 4) {
        v.comps.truncate(60);
    }
    // "V*" and "V.*" could not be told apart after a label that ends with a dot
    v.local = v.local.trim_end_matches('.').to_string();
    let messy = s.chance(1, 4);
    let mut t = [gen::render(s, &v, messy)];
    gen::foreign(s, &mut t);
    let [t] = t;
    t
}

/// A simple constraint on the given version text (or on a fresh one).
pub fn simple_on(s: &mut Src, mut v: String) -> Atom {
    if s.chance(1, 16) && !v.is_empty() && v.is_ascii() {
        // characters that mean nothing here, anywhere but at the start
        let c = *s.pick(&[';', ':', '#', '%', '&', '/', '?', '[', ']', '{', '}', '\'', '"', '\\', '~', '=', '<', '>', '`']);
        let i = 1 + s.below_us(v.len());
        v.insert(i, c);
        v = gen::parsable(v);
    }
    if s.chance(1, 30) {
        // blanks inside are characters like any other, where there is no operator
        let mut cs: Vec<char> = v.chars().collect();
        if cs.len() > 1 {
            let at = 1 + s.below_us(cs.len() - 1);
            let blank = *s.pick(&[' ', ' ', '\t', '\n']);
            for _ in 0..1 + s.below_us(2) {
                cs.insert(at, blank);
            }
            let w: String = cs.into_iter().collect();
            if model::parse(&w).is_some() {
                return match s.below(3) {
                    0 => Atom { text: w.clone(), exact: true, kind: Kind::Cmp(Op::Eq, w) },
                    1 => Atom { text: format!("{}.*", w), exact: false, kind: Kind::Starts(w) },
                    _ => Atom { text: format!("{}*", w), exact: false, kind: Kind::Starts(w) },
                };
            }
        }
    }
    let dotted = v.contains('.');
    match s.weighted(&[10, 4, 3, 3, 3, 2, 3, 2, 1, if dotted { 3 } else { 0 }]) {
        0 => {
            let op = *s.pick(&OPS);
            Atom { text: format!("{}{}", op.sign(), v), exact: op == Op::Eq, kind: Kind::Cmp(op, v) }
        }
        1 => Atom { text: v.clone(), exact: true, kind: Kind::Cmp(Op::Eq, v) },
        2 => Atom { text: format!("={}", v), exact: false, kind: Kind::Starts(v) },
        3 => Atom { text: format!("{}.*", v), exact: false, kind: Kind::Starts(v) },
        4 => Atom { text: format!("{}*", v), exact: false, kind: Kind::Starts(v) },
        5 => Atom { text: format!("={}.*", v), exact: false, kind: Kind::Starts(v) },
        6 => Atom { text: format!("!={}.*", v), exact: false, kind: Kind::NotStarts(v) },
        7 => {
            // '.*' is ignored after the other ordering operators
            let op = *s.pick(&[Op::Eq, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
            Atom { text: format!("{}{}.*", op.sign(), v), exact: op == Op::Eq, kind: Kind::Cmp(op, v) }
        }
        8 => Atom { text: "*".into(), exact: false, kind: Kind::Any },
        _ => compat_on(v),
    }
}

pub fn compat_on(v: String) -> Atom {
    Atom { text: format!("~={}", v), exact: false, kind: Kind::Compat(v) }
}

pub fn simple(s: &mut Src) -> Atom {
    let v = operand(s);
    if s.chance(1, 25) {
        let mut t = v.clone();
        let i = s.below_us(t.chars().count() + 1);
        let i = t.char_indices().nth(i).map_or(t.len(), |c| c.0);
        t.insert(i, '@');
        // a leading operator character would make it another constraint
        return Atom { text: t.clone(), exact: true, kind: Kind::Exact(t) };
    }
    simple_on(s, v)
}

/// A wildcard pattern: '*' somewhere before the end, over version characters.
pub fn glob(s: &mut Src, like: &str) -> Atom {
    if s.chance(1, 60) {
        // many stars, or a long way between them
        let unit = *s.pick(&["*1", "1*.", "*", "1", "a.", "0"]);
        let n = gen::scale(s, if unit.contains('*') { 300 } else { 1500 });
        let end = *s.pick(&["*2", "1*0", "*a.1", "*2*"]);
        let t = format!("{}{}", unit.repeat(n), end);
        return Atom { text: t.clone(), exact: false, kind: Kind::Glob(t) };
    }
    // (matching a long pattern takes the library's regexes a while)
    let mut p: Vec<char> = like.chars().take(250).collect();
    let k = 1 + if s.chance(1, 12) { s.below(20) } else { s.below(3) };
    for _ in 0..k {
        if p.is_empty() {
            break;
        }
        let i = s.below_us(p.len());
        let n = s.below_us((p.len() - i + 1).min(4));
        p.splice(i..i + n, std::iter::once('*'));
    }
    let mut t: String = p.into_iter().collect();
    if s.chance(1, 8) {
        t.push('*');
    }
    // must contain a '*' that something other than '*' follows; must not start like an operator
    if !t.trim_end_matches('*').contains('*') {
        t = t.trim_end_matches('*').to_string() + "*1";
    }
    if t.starts_with('!') {
        t.insert(0, '1');
    }
    Atom { text: t.clone(), exact: false, kind: Kind::Glob(t) }
}

pub fn regex(s: &mut Src) -> Atom {
    let depth = s.below_us(3);
    let r = rx::cat(s, depth, 0, 8);
    Atom { text: format!("^{}$", r.text()), exact: false, kind: Kind::Regex(r) }
}

pub fn atom(s: &mut Src) -> Atom {
    match s.weighted(&[10, 2, 2]) {
        0 => simple(s),
        1 => {
            let v = operand(s);
            glob(s, &v)
        }
        _ => regex(s),
    }
}

/// A version to test against an atom: near it, or any.
pub fn version_near(s: &mut Src, a: &Atom) -> String {
    match &a.kind {
        Kind::Regex(r) => rx::near(s, r),
        Kind::Glob(p) => {
            let mut t = String::new();
            for c in p.chars() {
                if c == '*' {
                    if s.chance(2, 3) {
                        t.push_str(s.pick(&["", "1", ".", ".0", "1.2", "a", "rc1", "-", "0.0.0"]));
                    }
                } else {
                    t.push(c);
                }
            }
            if s.chance(1, 3) {
                t = gen::edit_ascii(s, &t);
            }
            gen::parsable(t)
        }
        k => match k.about() {
            Some(t) if s.chance(4, 5) => near_text(s, t),
            _ => gen::version(s),
        },
    }
}

/// A version near a text: same, edited, extended, cut.
pub fn near_text(s: &mut Src, t: &str) -> String {
    let mut o = t.to_string();
    match s.weighted(&[6, 10, 6, 4, 4, 4, 1]) {
        0 => {}
        1 => {
            let k = 1 + s.below(2);
            for _ in 0..k {
                o = gen::edit_ascii(s, &o);
            }
        }
        2 => {
            // insert before a local label
            let at = o.find('+').unwrap_or_else(|| o.len());
            let x = *s.pick(&[".0", ".1", ".0.0", "a", "rc1", ".dev0", "post", ".post1", ".9", "_1", "-2", ".0.0.1", "dev"]);
            o.insert_str(at, x);
        }
        3 => {
            if let Some(i) = o.rfind(|c| c == '.' || c == '-' || c == '_') {
                o.truncate(i);
            }
        }
        4 => {
            // another number somewhere
            if let (Some(v), n) = (model::parse(&o), gen::number(s)) {
                let nums: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], model::Tok::Num(_))).collect();
                if !nums.is_empty() {
                    let at = *s.pick(&nums);
                    o = retext(&v, at, &n);
                }
            }
        }
        6 => {
            // blanks are characters like any other
            let x = *s.pick(&[" ", "  ", "\t"]);
            if s.chance(1, 2) {
                o.push_str(x);
            } else {
                o.insert_str(0, x);
            }
        }
        _ => {
            if !o.contains('+') {
                o.push('+');
                o.push_str(&gen::local(s));
            }
        }
    }
    gen::parsable(o)
}

fn retext(v: &[model::Tok], at: usize, n: &str) -> String {
    let mut o = String::new();
    for (i, t) in v.iter().enumerate() {
        match t {
            model::Tok::Epoch(e) => o.push_str(&format!("{}!", e)),
            model::Tok::Local(l) => o.push_str(&format!("+{}", l)),
            model::Tok::Neg(_) => unreachable!(),
            model::Tok::Num(d) => {
                if i > 0 && !o.ends_with('!') {
                    o.push('.');
                }
                o.push_str(if i == at { n } else { d });
            }
            model::Tok::Tag(t) => {
                if i > 0 && !o.ends_with('!') {
                    o.push('.');
                }
                o.push_str(t);
            }
            model::Tok::Empty => {}
        }
    }
    o
}

// ---- expressions ----

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ex {
    Atom(Atom),
    And(Vec<Ex>),
    Or(Vec<Ex>),
}

impl Ex {
    pub fn accepts(&self, v: &str) -> bool {
        self.holds(&|a| a.kind.accepts(v))
    }
    pub fn holds(&self, f: &dyn Fn(&Atom) -> bool) -> bool {
        match self {
            Ex::Atom(a) => f(a),
            Ex::And(xs) => xs.iter().all(|x| x.holds(f)),
            Ex::Or(xs) => xs.iter().any(|x| x.holds(f)),
        }
    }
    /// Directly nested uses of the same combinator merged into one level.
    pub fn flat(&self) -> Ex {
        fn collect(x: &Ex, and: bool, out: &mut Vec<Ex>) {
            match (x, and) {
                (Ex::And(xs), true) | (Ex::Or(xs), false) => xs.iter().for_each(|y| collect(y, and, out)),
                (x, _) => {
                    let f = x.flat();
                    match (f, and) {
                        (Ex::And(ys), true) | (Ex::Or(ys), false) => out.extend(ys),
                        (f, _) => out.push(f),
                    }
                }
            }
        }
        match self {
            Ex::Atom(a) => Ex::Atom(a.clone()),
            Ex::And(xs) | Ex::Or(xs) => {
                let and = matches!(self, Ex::And(_));
                let mut out = vec![];
                xs.iter().for_each(|x| collect(x, and, &mut out));
                if out.len() == 1 {
                    out.pop().unwrap()
                } else if and {
                    Ex::And(out)
                } else {
                    Ex::Or(out)
                }
            }
        }
    }
    pub fn atoms<'a>(&'a self, out: &mut Vec<&'a Atom>) {
        match self {
            Ex::Atom(a) => out.push(a),
            Ex::And(xs) | Ex::Or(xs) => xs.iter().for_each(|x| x.atoms(out)),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ex::Atom(_) => 0,
            Ex::And(xs) | Ex::Or(xs) => 1 + xs.iter().map(|x| x.depth()).max().unwrap_or(0),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ex::Atom(_) => 1,
            Ex::And(xs) | Ex::Or(xs) => xs.iter().map(|x| x.size()).sum(),
        }
    }
    /// The canonical text of a flat tree.
    pub fn canonical(&self) -> String {
        fn go(x: &Ex, top: bool) -> String {
            match x {
                Ex::Atom(a) => a.text.clone(),
                Ex::And(xs) | Ex::Or(xs) => {
                    let and = matches!(x, Ex::And(_));
                    let t = xs.iter().map(|y| go(y, false)).collect::<Vec<_>>().join(if and { "," } else { "|" });
                    if top {
                        t
                    } else {
                        format!("({})", t)
                    }
                }
            }
        }
        go(self, true)
    }
}

fn gap(s: &mut Src, loose: bool, o: &mut String) {
    if loose {
        while s.more(0, 0, 1, 1, 4) {
            o.push(if s.chance(1, 12) { *s.pick(&['\r', '\x0b', '\x0c', '\u{a0}', '\u{3000}']) } else { *s.pick(&[' ', ' ', '\t', '\n']) });
            if s.chance(1, 2) {
                break;
            }
        }
    }
}

/// Spell an expression: whitespace and redundant parentheses are drawn.
pub fn spell(s: &mut Src, x: &Ex, loose: bool) -> String {
    let mut o = String::new();
    gap(s, loose, &mut o);
    put(s, x, 0, loose, &mut o);
    gap(s, loose, &mut o);
    o
}

/// level 0: anything; 1: inside an 'or' (an 'and' needs no parentheses); 2: inside an 'and'
fn put(s: &mut Src, x: &Ex, level: u8, loose: bool, o: &mut String) {
    let need = match x {
        Ex::Atom(_) => false,
        Ex::And(xs) => level > 2 && xs.len() > 1,
        Ex::Or(xs) => level >= 2 && xs.len() > 1,
    };
    let mut extra = 0;
    while s.more(extra, 0, 3, 1, if loose { 6 } else { 30 }) {
        extra += 1;
    }
    if loose && s.chance(1, 150) {
        extra += 1 + s.below_us(64);
    }
    let parens = extra + need as usize;
    for _ in 0..parens {
        o.push('(');
        gap(s, loose, o);
    }
    match x {
        Ex::Atom(a) => o.push_str(&a.text),
        Ex::And(xs) | Ex::Or(xs) => {
            let and = matches!(x, Ex::And(_));
            for (i, y) in xs.iter().enumerate() {
                if i > 0 {
                    gap(s, loose, o);
                    o.push(if and { ',' } else { '|' });
                    gap(s, loose, o);
                }
                put(s, y, if and { 2 } else { 1 }, loose, o);
            }
        }
    }
    for _ in 0..parens {
        gap(s, loose, o);
        o.push(')');
    }
}

/// An expression over atoms; `make` draws the atoms.
pub fn expr(s: &mut Src, make: &mut dyn FnMut(&mut Src) -> Atom) -> Ex {
    match s.weighted(&[120, 8, 4, 2]) {
        0 => {
            let mut budget = 14;
            node(s, 4, &mut budget, make)
        }
        3 => wide(s, make),
        1 => {
            let mut budget = 60;
            node(s, 12, &mut budget, make)
        }
        _ => chain(s, make),
    }
}

fn node(s: &mut Src, depth: usize, budget: &mut usize, make: &mut dyn FnMut(&mut Src) -> Atom) -> Ex {
    if depth == 0 || *budget == 0 || s.chance(2, 5) {
        *budget = budget.saturating_sub(1);
        return Ex::Atom(make(s));
    }
    let and = s.chance(1, 2);
    let mut xs = vec![];
    while s.more(xs.len(), 2, 7, 1, 3) {
        xs.push(node(s, depth - 1, budget, make));
    }
    if and {
        Ex::And(xs)
    } else {
        Ex::Or(xs)
    }
}

/// Very many members, of which one may differ from the others.
fn wide(s: &mut Src, make: &mut dyn FnMut(&mut Src) -> Atom) -> Ex {
    let a = make(s);
    let b = make(s);
    // (the library copies what it has read so far with every further member; regexes slowly)
    let slow = [&a, &b].iter().any(|a| matches!(a.kind, Kind::Glob(_) | Kind::Regex(_)));
    let n = gen::scale(s, (30_000 / (a.text.len() + b.text.len() + 8)).min(if slow { 100 } else { 1200 }));
    let at = if s.chance(1, 2) { n } else { s.below_us(n) };
    let inside = s.chance(1, 2);
    let and = s.chance(1, 2);
    let mut xs: Vec<Ex> = vec![Ex::Atom(a.clone()); n + 1];
    xs[at] = if s.chance(1, 2) {
        let ys = vec![Ex::Atom(b.clone()), Ex::Atom(a)];
        if and { Ex::Or(ys) } else { Ex::And(ys) }
    } else {
        Ex::Atom(b.clone())
    };
    let x = if and { Ex::And(xs) } else { Ex::Or(xs) };
    if inside {
        let xs = vec![x, Ex::Atom(b)];
        if and { Ex::Or(xs) } else { Ex::And(xs) }
    } else {
        x
    }
}

/// Deep one-sided nesting.
fn chain(s: &mut Src, make: &mut dyn FnMut(&mut Src) -> Atom) -> Ex {
    let a = make(s);
    let b = make(s);
    let pool = vec![a, b, make(s)];
    let most = [12, 40, 300][s.weighted(&[40, 6, 1])];
    let n = 1 + s.below_us(most).min(60_000 / pool.iter().map(|a| a.text.len() + 1).sum::<usize>());
    let side = s.below(3);
    let mut x = Ex::Atom(s.pick(&pool).clone());
    for i in 0..n {
        let y = Ex::Atom(pool[(i + n) % 3].clone());
        let left = match side {
            0 => true,
            1 => false,
            _ => i % 3 == 0,
        };
        let xs = if left { vec![x, y] } else { vec![y, x] };
        x = if i % 2 == 0 { Ex::And(xs) } else { Ex::Or(xs) };
    }
    x
}
