//! Generators of version texts.
use crate::model;
use crate::src::Src;
use std::sync::OnceLock;

/// Literals found in the source of the code under test: guards on unusual values become reachable.
#[derive(Default)]
pub struct Dict {
    pub strings: Vec<String>,
    pub ints: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

pub fn set_dict(d: Dict) {
    let _ = DICT.set(d);
}

/// Collect string, char and integer literals from Rust source text, leaving out test modules.
pub fn literals(source: &str, d: &mut Dict) {
    let code = match source.find("#[cfg(test)]\nmod tests") {
        Some(i) => &source[..i],
        None => source,
    };
    let b: Vec<char> = code.chars().collect();
    let mut i = 0;
    let add_s = |t: String, d: &mut Dict| {
        if !t.is_empty() && t.len() <= 24 && !d.strings.contains(&t) {
            d.strings.push(t);
        }
    };
    let add_n = |n: u64, d: &mut Dict| {
        for v in &[n.wrapping_sub(1), n, n.wrapping_add(1)] {
            if !d.ints.contains(v) {
                d.ints.push(*v);
            }
        }
    };
    while i < b.len() {
        let c = b[i];
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut t = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    t.push(match b[i] {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        x => x,
                    });
                } else {
                    t.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            add_n(t.chars().count() as u64, d);
            for piece in t.split(|c: char| !c.is_alphanumeric()) {
                add_s(piece.to_string(), d);
            }
            add_s(t, d);
        } else if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
            add_s(b[i + 1].to_string(), d);
            i += 3;
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut t = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                t.push(b[i]);
                i += 1;
            }
            let t = t.replace('_', "");
            let v = if t.starts_with("0x") {
                u64::from_str_radix(t[2..].trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
            } else {
                let digits: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                digits.parse().ok()
            };
            if let Some(v) = v {
                add_n(v, d);
                if v < 63 && v > 5 {
                    add_n(1u64 << v, d);
                }
            }
        } else {
            i += 1;
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Comp {
    Num(String),
    Tag(String),
}

/// A version by structure; rendering chooses a spelling.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Vs {
    pub epoch: Option<i16>,
    pub comps: Vec<Comp>,
    pub local: String,
}

/// A count that is any power of ten up to `max` alike.
pub fn scale(s: &mut Src, max: usize) -> usize {
    let max = max.max(1);
    let bits = 64 - (max as u64).leading_zeros() as u64;
    let k = s.below(bits);
    (1 + s.below_us(1 << k)).min(max)
}

/// A number, as digits without leading zeros.
pub fn number(s: &mut Src) -> String {
    match s.weighted(&[10, 14, 6, 4, 3, 2, 2, 2, 1]) {
        0 => "0".into(),
        1 => (1 + s.below(12)).to_string(),
        2 => s.below(100).to_string(),
        3 => (1900 + s.below(200)).to_string(),
        4 => s.below(100_000).to_string(),
        5 => {
            // around powers of two and the limits of integer types
            let p = *s.pick(&[8u32, 7, 15, 16, 31, 32, 53, 63, 64]);
            let v = (1u128 << p) as i128 + s.range(-2, 2) as i128;
            v.max(0).to_string()
        }
        6 => {
            if dict().ints.is_empty() {
                s.below(1000).to_string()
            } else {
                s.pick(&dict().ints).to_string()
            }
        }
        7 => { let k = s.below(64); s.below(1u64 << k).to_string() }
        _ => {
            // any length of digits
            let mut d = (1 + s.below(9)).to_string();
            while s.more(d.len(), 1, 60, 14, 15) {
                d.push((b'0' + s.below(10) as u8) as char);
            }
            if s.chance(1, 12) {
                let n = scale(s, 400 / d.len());
                d = d.repeat(n);
                d.push((b'0' + s.below(3) as u8) as char);
            }
            d
        }
    }
}

const TAGS: [&str; 40] = [
    "a", "b", "rc", "dev", "post", "alpha", "beta", "c", "pre", "z", "A", "RC", "DEV", "Post", "devel", "postrelease",
    "xdev", "xpost", "devpost", "postdev", "de", "pos", "pst", "ev", "gabc", "final", "r", "rev", "p", "h", "sp", "ab",
    "aa", "deva", "adevb", "posta", "Beta", "x", "empty", "epoch",
];

pub fn letter(s: &mut Src) -> char {
    (b'a' + s.below(26) as u8) as char
}

/// An alphabetic tag (ASCII letters only).
pub fn tag(s: &mut Src) -> String {
    let mut t: String = match s.weighted(&[8, 3, 2, 1]) {
        0 => s.pick(&TAGS).to_string(),
        1 => {
            let mut t = String::new();
            while s.more(t.len(), 1, 12, 1, 2) {
                t.push(letter(s));
            }
            t
        }
        2 => {
            // a known word with letters around it
            let mut t = String::new();
            while s.more(t.len(), 0, 4, 1, 3) {
                t.push(letter(s));
            }
            t.push_str(s.pick(&["dev", "post", "rc", "alpha", "a", "b"]));
            while s.more(t.len(), 0, 10, 1, 3) {
                t.push(letter(s));
            }
            t
        }
        _ => {
            let t: String = if dict().strings.is_empty() {
                String::new()
            } else {
                s.pick(&dict().strings).chars().filter(|c| c.is_ascii_alphabetic()).collect()
            };
            if t.is_empty() {
                "q".into()
            } else {
                t
            }
        }
    };
    if s.chance(1, 5) {
        t = recase(s, &t);
    }
    if s.chance(1, 80) {
        let n = scale(s, 400 / t.len());
        t = t.repeat(n);
        t.push(letter(s));
    }
    t
}

pub fn recase(s: &mut Src, t: &str) -> String {
    match s.below(3) {
        0 => t.to_ascii_uppercase(),
        1 => t.to_ascii_lowercase(),
        _ => t.chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub fn local(s: &mut Src) -> String {
    let mut t = String::new();
    match s.weighted(&[4, 3, 2, 1]) {
        0 => t.push_str(s.pick(&["1", "a", "g", "0", "2", "10", "b", "A", "x.1", "1.0", "cuda", "cu101", "dev", "post", "-", "."])),
        1 => {
            while s.more(t.len(), 1, 12, 3, 4) {
                t.push(*s.pick(&['1', 'a', '0', 'b', '.', '2', 'g', 'Z', '-', '_', '9', 'f']));
            }
        }
        2 => {
            t.push_str(&number(s));
            if s.chance(1, 2) {
                t.push('.');
                t.push_str(&tag(s));
            }
        }
        _ => {
            t.push_str("ubuntu.");
            t.push_str(&number(s));
        }
    }
    if s.chance(1, 60) {
        let n = scale(s, 1500 / t.len());
        t = t.repeat(n);
        t.push(*s.pick(&['a', '0', 'Z', '.']));
    }
    t
}

pub fn epoch(s: &mut Src) -> i16 {
    match s.weighted(&[5, 3, 1, 1]) {
        0 => 1 + s.below(3) as i16,
        1 => 0,
        2 => *s.pick(&[32767i16, 32766, 255, 256, 128, 127, 100, 2020]),
        _ => *s.pick(&[-1i16, -2, -128, -32767, -32768]),
    }
}

pub fn comp(s: &mut Src) -> Comp {
    if s.chance(3, 10) {
        Comp::Tag(tag(s))
    } else {
        Comp::Num(number(s))
    }
}

/// How many components: mostly few, sometimes many.
fn comps(s: &mut Src, min: usize) -> Vec<Comp> {
    let (num, den, max) = match s.weighted(&[24, 6, 2, 1]) {
        0 => (2, 3, 6),
        1 => (7, 8, 16),
        2 => (19, 20, 70),
        _ => (99, 100, 300),
    };
    let mut v = vec![];
    while s.more(v.len(), min, max, num, den) {
        v.push(comp(s));
    }
    if s.chance(1, 100) {
        // very many, without a decision for each
        let n = scale(s, 4000);
        let c = if v.is_empty() || s.chance(1, 2) { comp(s) } else { v[s.below_us(v.len())].clone() };
        let at = s.below_us(v.len() + 1);
        let size = match &c {
            Comp::Num(t) | Comp::Tag(t) => t.len(),
        };
        if size < 20 {
            v.splice(at..at, std::iter::repeat(c).take(n));
        }
    }
    v
}

pub fn vs(s: &mut Src) -> Vs {
    let epoch = if s.chance(1, 8) { Some(epoch(s)) } else { None };
    let min = if s.chance(1, 60) { 0 } else { 1 };
    let comps = comps(s, min);
    let local = if s.chance(1, 6) { local(s) } else { String::new() };
    Vs { epoch, comps, local }
}

/// A variant of a version: equal, near or diverging at a chosen place.
pub fn mutate(s: &mut Src, v: &Vs) -> Vs {
    let mut w = v.clone();
    let steps = 1 + s.weighted(&[5, 2, 1]);
    for _ in 0..steps {
        let n = w.comps.len();
        match s.weighted(&[3, 3, 4, 2, 2, 3, 2, 2, 2, 2, 1, 1, 1]) {
            0 => {}
            1 if n > 0 => {
                let i = s.below_us(n);
                w.comps[i] = comp(s);
            }
            2 if n > 0 => {
                // nudge one component
                let i = n - 1 - s.below_us(n.min(4));
                w.comps[i] = nudge(s, &w.comps[i]);
            }
            3 => {
                let i = s.below_us(n + 1);
                let c = comp(s);
                w.comps.insert(i, c);
            }
            4 if n > 0 => {
                let i = s.below_us(n);
                w.comps.remove(i);
            }
            5 => {
                while s.more(w.comps.len(), n + 1, n + 6, 1, 2) {
                    w.comps.push(Comp::Num("0".into()));
                }
            }
            6 => {
                let k = s.below_us(n + 1);
                w.comps.truncate(k);
            }
            7 => {
                let c = comp(s);
                w.comps.push(c)
            }
            8 => w.local = match s.below(4) {
                _ if w.local.is_empty() => local(s),
                0 => String::new(),
                1 => local(s),
                2 => word(s, &['0', '1', '9', 'a', '.', 'B']),
                _ => edit_ascii(s, &w.local),
            },
            9 if n > 0 => {
                let i = s.below_us(n);
                w.comps[i] = Comp::Num("0".into());
            }
            10 => w.epoch = if w.epoch.is_some() && s.chance(1, 2) { None } else { Some(epoch(s)) },
            11 if n > 1 => {
                let i = s.below_us(n - 1);
                w.comps.swap(i, i + 1);
            }
            12 => {
                // a zero in front of a later component
                let i = s.below_us(n + 1);
                w.comps.insert(i, Comp::Num("0".into()));
            }
            _ => {}
        }
    }
    w
}

fn nudge(s: &mut Src, c: &Comp) -> Comp {
    match c {
        Comp::Num(d) => Comp::Num(match s.below(4) {
            0 => dec_add(d, 1),
            1 => dec_add(d, -1),
            2 => {
                let mut d = d.clone();
                d.push((b'0' + s.below(10) as u8) as char);
                model::strip_zeros(&d)
            }
            _ => {
                let mut d = d.clone();
                d.pop();
                if d.is_empty() {
                    "0".into()
                } else {
                    d
                }
            }
        }),
        Comp::Tag(t) => Comp::Tag(match s.below(5) {
            0 => recase(s, t),
            1 => {
                let mut t = t.clone();
                t.push(letter(s));
                t
            }
            2 => {
                let mut t = t.clone();
                if t.chars().count() > 1 {
                    t.pop();
                }
                t
            }
            3 => {
                let mut b: Vec<char> = t.chars().collect();
                let i = s.below_us(b.len());
                b[i] = letter(s);
                b.into_iter().collect()
            }
            _ => format!("{}{}", letter(s), t),
        }),
    }
}

/// d + k on decimal text, not below 0 (k is 1 or -1).
fn dec_add(d: &str, k: i32) -> String {
    let mut b: Vec<u8> = d.bytes().map(|x| x - b'0').collect();
    if k > 0 {
        let mut i = b.len();
        loop {
            if i == 0 {
                b.insert(0, 1);
                break;
            }
            i -= 1;
            if b[i] == 9 {
                b[i] = 0;
            } else {
                b[i] += 1;
                break;
            }
        }
    } else {
        if b.iter().all(|x| *x == 0) {
            return "0".into();
        }
        let mut i = b.len();
        loop {
            i -= 1;
            if b[i] == 0 {
                b[i] = 9;
            } else {
                b[i] -= 1;
                break;
            }
        }
    }
    model::strip_zeros(&b.iter().map(|x| (x + b'0') as char).collect::<String>())
}

/// Spell a version. `messy` 0: dots only. Otherwise any separators, leading zeros, doubled
/// separators and, between digit and letter, none.
pub fn render(s: &mut Src, v: &Vs, messy: bool) -> String {
    let mut o = String::new();
    if let Some(e) = v.epoch {
        o.push_str(&e.to_string());
        o.push('!');
    }
    let sep = |s: &mut Src, o: &mut String| {
        o.push(if messy { *s.pick(&['.', '.', '-', '_']) } else { '.' });
        if messy && s.chance(1, 12) {
            o.push(*s.pick(&['.', '-', '_']));
        }
    };
    if messy && s.chance(1, 20) {
        sep(s, &mut o);
    }
    let mut prev: Option<bool> = None;
    for c in &v.comps {
        let is_num = matches!(c, Comp::Num(_));
        if let Some(p) = prev {
            if p == is_num || !s.chance(1, 2) {
                sep(s, &mut o);
            }
        }
        match c {
            Comp::Num(d) => {
                if messy && s.chance(1, 12) {
                    let k = 1 + s.below(3);
                    for _ in 0..k {
                        o.push('0');
                    }
                }
                o.push_str(d)
            }
            Comp::Tag(t) => o.push_str(t),
        }
        prev = Some(is_num);
    }
    if messy && s.chance(1, 20) {
        sep(s, &mut o);
    }
    if !v.local.is_empty() {
        o.push('+');
        o.push_str(&v.local);
    }
    o
}

/// An ASCII version text over letters, digits, separators, epoch and local label.
pub fn version(s: &mut Src) -> String {
    let v = vs(s);
    let messy = s.chance(1, 3);
    render(s, &v, messy)
}

/// A short word over a small alphabet: words of one alphabet and different lengths meet often.
pub fn word(s: &mut Src, alphabet: &[char]) -> String {
    let mut t = String::new();
    let (num, den) = if s.chance(1, 8) { (9, 10) } else { (1, 2) };
    while s.more(t.len(), 1, 24, num, den) {
        t.push(*s.pick(alphabet));
    }
    t
}

/// Versions that differ in one place only, where they hold words of one kind.
pub fn focused(s: &mut Src, min: usize, max: usize) -> Vec<String> {
    let mut head = String::new();
    while s.more(head.len(), 0, 8, 1, 2) {
        head.push_str(s.pick(&["1.", "0.", "2a.", "rc."]));
    }
    if s.chance(1, 50) {
        // a long way to the place
        let n = scale(s, 5000);
        let unit = *s.pick(&["1.", "0.", "a1", "a", "7", "rc1."]);
        head.push_str(&unit.repeat(if unit.len() == 1 { n.min(300) } else { n }));
    }
    let tail = s.pick(&["", "", "", ".1", ".0", ".a"]).to_string();
    let kind = s.below(5);
    // a long way to the place within its part, and on from it
    let (mut stem, mut rest) = (String::new(), String::new());
    if s.chance(1, 12) {
        let unit = *s.pick(&[["1", "a", "0.1", "rev"], ["a", "b", "Z.", "0"], ["a", "ab", "Zb", "x"], ["1", "9", "10", "307"]][(kind as usize).min(3)]);
        for t in [&mut stem, &mut rest] {
            if s.chance(2, 3) {
                let n = scale(s, 3000 / unit.len());
                *t = unit.repeat(n);
            }
        }
    }
    let tags = s.chance(1, 3);
    let mut all = vec![];
    while s.more(all.len(), min, max, 4, 5) {
        all.push(match kind {
            0 => format!("{}1+{}{}{}", head, stem, word(s, &['0', '1', '2', '9', 'a', 'b']), rest),
            1 => format!("{}1+{}{}{}", head, stem, word(s, &['1', '9', '0', '.', '-', '_', 'a', 'A', 'z', 'Z']), rest),
            2 if tags && !stem.is_empty() => format!("{}{}{}{}{}", head, stem, s.pick(&["dev", "post", "a", "", "DEV", "Post", "de", "os"]), rest, tail),
            2 => format!("{}{}{}{}{}", head, stem, word(s, &['a', 'b', 'A', 'B', 'z']), rest, tail),
            3 => format!("{}{}{}{}{}", head, stem, word(s, &['0', '1', '9']), rest, tail),
            _ => {
                // any kind of part in the place
                let p = match s.below(6) {
                    0 => number(s),
                    1 => tag(s),
                    2 => format!("+{}", local(s)),
                    3 => String::new(),
                    4 => "0".into(),
                    _ => s.pick(&["dev", "post", "a", "1", "+a", "+0", "+-"]).to_string(),
                };
                if p.starts_with('+') { format!("{}{}", head, p) } else { format!("{}{}{}", head, p, tail) }
            }
        });
    }
    all
}

/// Several texts around one version.
pub fn family(s: &mut Src, min: usize, max: usize) -> Vec<String> {
    if s.chance(1, 5) {
        return focused(s, min, max);
    }
    let base = vs(s);
    let mut all = vec![base];
    while s.more(all.len(), min, max, 4, 5) {
        let v = match s.weighted(&[6, 2, 1]) {
            0 => {
                let i = s.below_us(all.len());
                let b = all[i].clone();
                mutate(s, &b)
            }
            1 => {
                let b = all[0].clone();
                mutate(s, &b)
            }
            _ => vs(s),
        };
        all.push(v);
    }
    let messy = s.chance(1, 3);
    all.iter().map(|v| render(s, v, messy)).collect()
}

pub fn pair(s: &mut Src) -> (String, String) {
    let mut f = family(s, 2, 2);
    let b = f.pop().unwrap();
    (f.pop().unwrap(), b)
}

/// Letters beyond ASCII that have no other case, or stand for themselves when case is ignored:
/// tags made of them rank by their characters.
pub const LETTERS: [char; 13] = ['\u{e9}', '\u{e4}', '\u{f1}', '\u{f8}', '\u{44f}', '\u{431}', '\u{3bb}', '\u{127}', '\u{5d0}', '\u{4e2d}', '\u{65e5}', '\u{3042}', '\u{ac00}'];

/// Whether the reference model covers the text.
pub fn plain(t: &str) -> bool {
    t.chars().all(|c| c.is_ascii() || LETTERS.contains(&c))
}

/// In every text, or in one of them, one letter is replaced by one beyond ASCII.
pub fn foreign(s: &mut Src, texts: &mut [String]) {
    if texts.is_empty() || !s.chance(1, 10) {
        return;
    }
    let k = 1 + s.below(2);
    for _ in 0..k {
        let i = s.below_us(texts.len());
        let from: Vec<char> = texts[i].chars().filter(|c| c.is_ascii_alphabetic()).take(200).collect();
        let to = *s.pick(&LETTERS);
        if from.is_empty() {
            let t = &mut texts[i];
            if !t.contains(|c| c == '!' || c == '+') && !t.is_empty() {
                t.push(to);
            }
            continue;
        }
        let from = *s.pick(&from);
        let all = s.chance(2, 3);
        for (j, t) in texts.iter_mut().enumerate() {
            if all || i == j {
                *t = t.replace(from, &to.to_string());
            }
        }
    }
}

/// Put in characters beyond letters and digits (still parsable).
pub fn widen(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let k = 1 + s.below(3);
    for _ in 0..k {
        let c = wide_char(s);
        if !cs.is_empty() && s.chance(1, 2) {
            let i = s.below_us(cs.len());
            cs[i] = c;
        } else {
            let i = s.below_us(cs.len() + 1);
            cs.insert(i, c);
        }
    }
    cs.into_iter().collect()
}

pub fn wide_char(s: &mut Src) -> char {
    match s.weighted(&[3, 2, 2, 1]) {
        0 => *s.pick(&['*', '@', '~', ':', '/', ' ', '=', '<', '>', '^', '$', '(', ')', '|', ',', '[', ']', '#', '%', '&', '\\', '"', '\'', '?', '{', '}', ';', '`', '\t', '\n']),
        1 => *s.pick(&['é', 'É', 'ß', 'ﬆ', 'ſ', 'K', 'İ', 'ı', 'σ', 'ς', 'Σ', '٣', '५', '２', 'Ａ', 'ａ', '²', '½', 'ǅ', 'ﬁ', '日', '🦀', '\u{301}', '\u{200b}', '\u{a0}', '\u{feff}']),
        2 => (s.below(128) as u8) as char,
        _ => std::char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

/// Make a text parse by dropping repeated '!' and '+' and a bad epoch.
pub fn parsable(t: String) -> String {
    if model::refusal(&t).is_none() {
        return t;
    }
    let bang = t.find('!');
    let mut o = String::new();
    if let Some(i) = bang {
        if model::epoch_value(&t[..i]).is_some() {
            o.push_str(&t[..i + 1]);
        } else {
            o.push_str(&t[..i].replace('+', "."));
        }
    }
    let rest = &t[bang.map_or(0, |i| i + 1)..];
    let mut plus = false;
    for c in rest.chars() {
        match c {
            '!' => {}
            '+' if plus => {}
            c => {
                plus |= c == '+';
                o.push(c)
            }
        }
    }
    if model::refusal(&o).is_some() {
        o = o.replace('+', ".");
    }
    o
}

/// A version text that parses, possibly with unusual characters.
pub fn any_parsable(s: &mut Src) -> String {
    let t = version(s);
    if s.chance(1, 4) {
        let w = widen(s, &t);
        parsable(w)
    } else {
        t
    }
}

pub fn edit_ascii(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let c = *s.pick(&['1', '0', '.', 'a', '2', '-', '_', '9', 'Z', 'd', 'p']);
    match s.below(4) {
        0 if !cs.is_empty() => {
            let i = s.below_us(cs.len());
            cs[i] = c;
        }
        1 if !cs.is_empty() => {
            let i = s.below_us(cs.len());
            cs.remove(i);
        }
        2 => cs.push(c),
        _ => {
            let i = s.below_us(cs.len() + 1);
            cs.insert(i, c);
        }
    }
    cs.into_iter().collect()
}

/// Any Unicode text, biased to version syntax.
pub fn text(s: &mut Src) -> String {
    let mut t = String::new();
    match s.weighted(&[4, 4, 3, 1]) {
        0 => {
            t = version(s);
            let w = s.below(4);
            for _ in 0..w {
                t = widen(s, &t);
            }
        }
        1 => {
            while s.more(t.len(), 0, 40, 7, 8) {
                t.push_str(s.pick(&["1", ".", "!", "+", "-", "_", "a", "0", "dev", "post", "9", "!!", "++", "-1!", "1!", "32768!", "99999!", " ", "é", "\0", "+1", "٣"]));
            }
        }
        2 => {
            while s.more(t.len(), 0, 60, 7, 8) {
                t.push(wide_char(s));
            }
        }
        _ => {
            // long
            let unit = s.pick(&["1.", "0", "a1", "-", "9", "post", "!", "1+", "x", ".", "🦀"]).to_string();
            let k = 1usize << s.below(13);
            t = unit.repeat(k);
            if s.chance(1, 3) {
                t.push('!');
                t.push_str(&unit);
            }
        }
    }
    if s.chance(1, 6) {
        let e = s.pick(&["1!", "-3!", "32767!", "32768!", "-32768!", "-32769!", "+7!", " 1!", "1 !", "1.0!", "a!", "!", "00001!", "65537!", "4294967297!", "٣!", "--1!", "-!"]).to_string();
        t = e + &t;
    }
    if s.chance(1, 8) {
        t.push_str(s.pick(&["+", "+a", "+a+b", "++", "+1!", "!", "+a.b-c"]));
    }
    if s.chance(1, 30) && !dict().strings.is_empty() {
        t.push_str(&s.pick(&dict().strings).clone());
    }
    t
}
