//! A subset of regular expressions: generator, printer, sampler and an independent matcher
//! (sets of positions; no library).
use crate::gen;
use crate::src::Src;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Rx {
    Lit(char),
    Dot,
    Digit,
    Class(bool, Vec<(char, char)>),
    Cat(Vec<Rx>),
    Alt(bool, Vec<Rx>),
    Rep(Box<Rx>, u32, Option<u32>),
    /// a repetition that prefers fewer: the same language
    Lazy(Box<Rx>),
    /// \d \D \w \W \s \S
    Perl(char),
    /// letters in either case
    Nocase(Box<Rx>),
}

fn lit(s: &mut Src) -> char {
    if s.chance(1, 16) {
        // characters that mean something elsewhere
        return *s.pick(&[' ', ',', '|', '(', ')', ' ', ',', '*', '@', '=', '<', '>', '~', '/', ';', ':', '#', '%', '&', '"', '\t']);
    }
    *s.pick(&['1', '0', '.', '7', 'a', '2', 'b', '5', '9', 'd', 'e', 'v', 'p', 'o', 's', 't', 'r', 'c', '-', '_', '+', '!', 'A', 'Z'])
}

fn atom(s: &mut Src, depth: usize) -> Rx {
    match s.weighted(&[16, 8, 6, 10, if depth > 0 { 6 } else { 0 }, 3, if depth > 0 { 1 } else { 0 }]) {
        0 => Rx::Lit(lit(s)),
        1 => Rx::Dot,
        2 => Rx::Digit,
        3 => {
            let neg = s.chance(1, 3);
            let mut items = vec![];
            while s.more(items.len(), 1, 4, 1, 3) {
                items.push(match s.below(4) {
                    0 => ('0', '9'),
                    1 => {
                        let c = lit(s);
                        (c, c)
                    }
                    2 => {
                        let lo = s.below(9) as u8;
                        let hi = lo + s.below(10 - lo as u64) as u8;
                        ((b'0' + lo) as char, (b'0' + hi) as char)
                    }
                    _ => ('a', 'z'),
                });
            }
            Rx::Class(neg, items)
        }
        5 => Rx::Perl(*s.pick(&['d', 'D', 'w', 'W', 's', 'S'])),
        6 => Rx::Nocase(Box::new(cat(s, depth - 1, 0, 3))),
        _ => {
            let mut alts = vec![];
            while s.more(alts.len(), 1, 4, 1, 2) {
                alts.push(cat(s, depth - 1, 0, 3));
            }
            Rx::Alt(s.chance(1, 2), alts)
        }
    }
}

pub fn cat(s: &mut Src, depth: usize, min: usize, max: usize) -> Rx {
    let mut xs = vec![];
    while s.more(xs.len(), min, max, 2, 3) {
        if s.chance(1, 20) {
            let t = *s.pick(&[", ", " ,", "| ", " |", "( ", " )", "()", "),", "|(", "  ", ".*", ",,", "==", "*)", "\t "]);
            xs.extend(t.chars().map(Rx::Lit));
            continue;
        }
        let a = atom(s, depth);
        let a = match s.weighted(&[8, 2, 2, 1, 1]) {
            0 => a,
            1 => Rx::Rep(Box::new(a), 0, None),
            2 => Rx::Rep(Box::new(a), 1, None),
            3 => Rx::Rep(Box::new(a), 0, Some(1)),
            _ => {
                let lo = s.below(3) as u32;
                let hi = lo + s.below(3) as u32;
                Rx::Rep(Box::new(a), lo, Some(hi))
            }
        };
        let lazy = matches!(a, Rx::Rep(..)) && s.chance(1, 6);
        xs.push(if lazy { Rx::Lazy(Box::new(a)) } else { a });
    }
    Rx::Cat(xs)
}

fn esc(c: char, out: &mut String) {
    if "\\.+*?()|[]{}^$-".contains(c) {
        out.push('\\');
    }
    out.push(c);
}

/// The class of that letter, on ASCII and `gen::LETTERS`.
fn perl(c: char, x: char) -> bool {
    let is = match c.to_ascii_lowercase() {
        'd' => x.is_ascii_digit(),
        'w' => x.is_alphanumeric() || x == '_',
        _ => x == ' ' || ('\t'..='\r').contains(&x),
    };
    is == c.is_ascii_lowercase()
}

impl Rx {
    /// The text between '^' and '$'.
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.put(&mut o);
        o
    }
    fn put(&self, o: &mut String) {
        match self {
            Rx::Lit(c) => esc(*c, o),
            Rx::Dot => o.push('.'),
            Rx::Digit => o.push_str("[0-9]"),
            Rx::Class(neg, items) => {
                o.push_str(if *neg { "[^" } else { "[" });
                for (a, b) in items {
                    esc(*a, o);
                    if a != b {
                        o.push('-');
                        esc(*b, o);
                    }
                }
                o.push(']');
            }
            Rx::Lazy(x) => {
                x.put(o);
                o.push('?');
            }
            Rx::Perl(c) => {
                o.push('\\');
                o.push(*c);
            }
            Rx::Nocase(x) => {
                o.push_str("(?i:");
                x.put(o);
                o.push(')');
            }
            Rx::Cat(xs) => xs.iter().for_each(|x| x.put(o)),
            Rx::Alt(cap, xs) => {
                o.push_str(if *cap { "(" } else { "(?:" });
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.put(o);
                }
                o.push(')');
            }
            Rx::Rep(x, lo, hi) => {
                x.put(o);
                match (lo, hi) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (l, Some(h)) => o.push_str(&format!("{{{},{}}}", l, h)),
                    (l, None) => o.push_str(&format!("{{{},}}", l)),
                }
            }
        }
    }
    fn step(&self, t: &[char], from: &[bool], nocase: bool) -> Vec<bool> {
        let single = |f: &dyn Fn(char) -> bool| {
            let mut to = vec![false; t.len() + 1];
            for i in 0..t.len() {
                to[i + 1] = from[i] && f(t[i]);
            }
            to
        };
        match self {
            Rx::Lit(c) => single(&|x| x == *c || nocase && x.eq_ignore_ascii_case(c)),
            Rx::Dot => single(&|x| x != '\n'),
            Rx::Digit => single(&|x| x.is_ascii_digit()),
            Rx::Class(neg, items) => {
                let has = |x: char| items.iter().any(|(a, b)| *a <= x && x <= *b);
                single(&|x| (has(x) || nocase && (has(x.to_ascii_lowercase()) || has(x.to_ascii_uppercase()))) != *neg)
            }
            Rx::Lazy(x) => x.step(t, from, nocase),
            Rx::Nocase(x) => x.step(t, from, true),
            Rx::Perl(c) => single(&|x| perl(*c, x)),
            Rx::Cat(xs) => xs.iter().fold(from.to_vec(), |f, x| x.step(t, &f, nocase)),
            Rx::Alt(_, xs) => {
                let mut to = vec![false; t.len() + 1];
                for x in xs {
                    for (o, n) in to.iter_mut().zip(x.step(t, from, nocase)) {
                        *o |= n;
                    }
                }
                to
            }
            Rx::Rep(x, lo, hi) => {
                let mut cur = from.to_vec();
                for _ in 0..*lo {
                    cur = x.step(t, &cur, nocase);
                }
                let mut all = cur.clone();
                let mut n = *lo;
                while hi.map_or(true, |h| n < h) {
                    cur = x.step(t, &cur, nocase);
                    let before = all.clone();
                    for (o, c) in all.iter_mut().zip(&cur) {
                        *o |= *c;
                    }
                    n += 1;
                    if all == before && hi.is_none() {
                        break;
                    }
                }
                all
            }
        }
    }
    pub fn matches(&self, text: &str) -> bool {
        let t: Vec<char> = text.chars().collect();
        let mut from = vec![false; t.len() + 1];
        from[0] = true;
        self.step(&t, &from, false)[t.len()]
    }
    /// A text that matches (best effort for negated classes).
    pub fn sample(&self, s: &mut Src, out: &mut String) {
        match self {
            Rx::Lit(c) => out.push(*c),
            Rx::Dot => out.push(lit(s)),
            Rx::Digit => out.push((b'0' + s.below(10) as u8) as char),
            Rx::Class(false, items) => {
                let (a, b) = *s.pick(items);
                let n = b as u32 - a as u32 + 1;
                out.push((a as u8 + s.below(n as u64) as u8) as char);
            }
            Rx::Class(true, items) => {
                for _ in 0..6 {
                    let c = lit(s);
                    if !items.iter().any(|(a, b)| *a <= c && c <= *b) {
                        out.push(c);
                        return;
                    }
                }
                out.push('~');
            }
            Rx::Lazy(x) => x.sample(s, out),
            Rx::Nocase(x) => {
                let mut t = String::new();
                x.sample(s, &mut t);
                out.extend(t.chars().map(|c| if s.chance(1, 2) { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }));
            }
            Rx::Perl(c) => {
                for _ in 0..8 {
                    let x = *s.pick(&['1', '0', 'a', 'Z', '.', '_', '-', ' ', '9', '\t']);
                    if perl(*c, x) {
                        out.push(x);
                        return;
                    }
                }
            }
            Rx::Cat(xs) => xs.iter().for_each(|x| x.sample(s, out)),
            Rx::Alt(_, xs) => s.pick(xs).clone().sample(s, out),
            Rx::Rep(x, lo, hi) => {
                let n = *lo as u64 + s.below(hi.map_or(4, |h| (h - lo) as u64 + 1));
                for _ in 0..n {
                    x.sample(s, out);
                }
            }
        }
    }
}

/// A version text near the language of the regex: a sample, a sample with one edit, or any.
pub fn near(s: &mut Src, rx: &Rx) -> String {
    let mut t = String::new();
    match s.weighted(&[3, 3, 2]) {
        0 => rx.sample(s, &mut t),
        1 => {
            rx.sample(s, &mut t);
            t = gen::edit_ascii(s, &t);
        }
        _ => t = gen::version(s),
    }
    gen::parsable(t)
}
