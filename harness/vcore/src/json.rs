//! Repodata documents: a generator that spells documents in many ways, and a model of what
//! loading a text must give (own strict JSON reader, own schema).
use crate::gen;
use crate::model;
use crate::src::Src;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// the number as written
    Num(String),
    Str(String),
    /// a string with an escape that is no character (lone surrogate)
    BadStr,
    Arr(Vec<J>),
    Obj(Vec<(J, J)>),
}

pub struct Parser<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
    pub deep: bool,
}

impl<'a> Parser<'a> {
    pub fn document(text: &'a str) -> (Option<J>, bool) {
        let mut p = Parser { b: text.as_bytes(), i: 0, depth: 0, deep: false };
        let v = p.value();
        p.ws();
        let ok = p.i == p.b.len();
        (if ok { v } else { None }, p.deep)
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self, w: &str, v: J) -> Option<J> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        self.depth += 1;
        if self.depth > 100 {
            self.deep = true;
            return None;
        }
        self.ws();
        let v = match *self.b.get(self.i)? {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => self.string(),
            b'[' => {
                self.i += 1;
                let mut xs = vec![];
                self.ws();
                if self.eat(b']').is_some() {
                    Some(J::Arr(xs))
                } else {
                    loop {
                        xs.push(self.value()?);
                        self.ws();
                        if self.eat(b']').is_some() {
                            break Some(J::Arr(xs));
                        }
                        self.eat(b',')?;
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut xs = vec![];
                self.ws();
                if self.eat(b'}').is_some() {
                    Some(J::Obj(xs))
                } else {
                    loop {
                        self.ws();
                        if self.b.get(self.i) != Some(&b'"') {
                            return None;
                        }
                        let k = self.string()?;
                        self.ws();
                        self.eat(b':')?;
                        xs.push((k, self.value()?));
                        self.ws();
                        if self.eat(b'}').is_some() {
                            break Some(J::Obj(xs));
                        }
                        self.eat(b',')?;
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        };
        self.depth -= 1;
        v
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.i - s
    }
    fn number(&mut self) -> Option<J> {
        let s = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_none() && self.digits() == 0 {
            return None;
        }
        if self.eat(b'.').is_some() && self.digits() == 0 {
            return None;
        }
        if self.i < self.b.len() && (self.b[self.i] | 32) == b'e' {
            self.i += 1;
            if self.eat(b'+').is_none() {
                let _ = self.eat(b'-');
            }
            if self.digits() == 0 {
                return None;
            }
        }
        Some(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).ok()?))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0u32;
        for _ in 0..4 {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            v = v * 16 + (c as char).to_digit(16)?;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<J> {
        self.eat(b'"')?;
        let mut o: Vec<u8> = vec![];
        let mut bad = false;
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => break,
                0..=0x1f => return None,
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'u' => {
                            let hi = self.hex4()?;
                            let ch = if hi >= 0xd800 && hi < 0xdc00 {
                                if self.b[self.i..].starts_with(b"\\u") {
                                    self.i += 2;
                                    let lo = self.hex4()?;
                                    if lo >= 0xdc00 && lo < 0xe000 {
                                        std::char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00))
                                    } else {
                                        None
                                    }
                                } else {
                                    None
                                }
                            } else {
                                std::char::from_u32(hi)
                            };
                            match ch {
                                Some(ch) => {
                                    let mut buf = [0; 4];
                                    o.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                                }
                                None => bad = true,
                            }
                        }
                        _ => return None,
                    }
                }
                c => o.push(c),
            }
        }
        if bad {
            return Some(J::BadStr);
        }
        String::from_utf8(o).ok().map(J::Str)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub build: String,
    pub build_number: u64,
    pub depends: Vec<String>,
    pub md5: String,
    pub name: String,
    pub sha256: String,
    pub size: u64,
    pub timestamp: u64,
    pub version: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub subdir: String,
    pub repodata_version: u64,
    pub removed: Vec<String>,
    pub packages: BTreeMap<String, Rec>,
    pub packages_conda: BTreeMap<String, Rec>,
}

#[derive(Debug)]
pub enum Verdict {
    Valid(Doc),
    Invalid(String),
    /// the format leaves it open (or a library may differ): only 'no crash' is required
    Open(&'static str),
}

enum E {
    Bad(String),
    Open(&'static str),
}

fn bad<T>(m: impl Into<String>) -> Result<T, E> {
    Err(E::Bad(m.into()))
}

struct Fields {
    m: BTreeMap<String, J>,
}

fn object(v: &J, what: &str, known: &[&str]) -> Result<Fields, E> {
    match v {
        J::Obj(xs) => {
            let mut m = BTreeMap::new();
            let mut open = None;
            for (k, x) in xs {
                match k {
                    J::Str(k) if known.contains(&k.as_str()) => {
                        if m.insert(k.clone(), x.clone()).is_some() {
                            return bad(format!("field {} twice in {}", k, what));
                        }
                    }
                    J::Str(_) => {
                        if odd(x) {
                            open = Some("odd value in an ignored field");
                        }
                    }
                    _ => return bad("object key is no text"),
                }
            }
            for k in known {
                if !m.contains_key(*k) {
                    return bad(format!("field {} missing in {}", k, what));
                }
            }
            if let Some(o) = open {
                return Err(E::Open(o));
            }
            Ok(Fields { m })
        }
        J::Arr(_) => Err(E::Open("array where an object belongs")),
        _ => bad(format!("{} is not an object", what)),
    }
}

/// Contains something readers may judge differently when they skip it.
fn odd(v: &J) -> bool {
    match v {
        J::BadStr => true,
        J::Num(n) => n.len() > 15 || n.to_lowercase().split('e').nth(1).map_or(false, |e| e.len() > 3),
        J::Arr(xs) => xs.iter().any(odd),
        J::Obj(xs) => xs.iter().any(|(k, x)| odd(k) || odd(x)),
        _ => false,
    }
}

fn text(v: &J, what: &str) -> Result<String, E> {
    match v {
        J::Str(s) => Ok(s.clone()),
        _ => bad(format!("{} is not a string", what)),
    }
}

fn texts(v: &J, what: &str) -> Result<Vec<String>, E> {
    match v {
        J::Arr(xs) => xs.iter().map(|x| text(x, what)).collect(),
        _ => bad(format!("{} is not a list", what)),
    }
}

fn uint(v: &J, max: u64, what: &str) -> Result<u64, E> {
    match v {
        J::Num(n) if n == "-0" => Err(E::Open("minus zero")),
        J::Num(n) if n.bytes().all(|b| b.is_ascii_digit()) => match n.parse::<u128>() {
            Ok(x) if x <= max as u128 => Ok(x as u64),
            _ => bad(format!("{} out of range", what)),
        },
        _ => bad(format!("{} is not an unsigned integer", what)),
    }
}

fn record(v: &J) -> Result<Rec, E> {
    let f = object(v, "record", &["build", "build_number", "depends", "md5", "name", "sha256", "size", "timestamp", "version"])?;
    let g = |k: &str| &f.m[k];
    let version = text(g("version"), "version")?;
    if model::refusal(&version).is_some() {
        return bad("version does not parse");
    }
    Ok(Rec {
        build: text(g("build"), "build")?,
        build_number: uint(g("build_number"), 65535, "build_number")?,
        depends: texts(g("depends"), "depends")?,
        md5: text(g("md5"), "md5")?,
        name: text(g("name"), "name")?,
        sha256: text(g("sha256"), "sha256")?,
        size: uint(g("size"), u64::max_value(), "size")?,
        timestamp: uint(g("timestamp"), u64::max_value(), "timestamp")?,
        version,
    })
}

fn records(v: &J, what: &str) -> Result<BTreeMap<String, Rec>, E> {
    match v {
        J::Obj(xs) => {
            let mut m = BTreeMap::new();
            let mut open = None;
            for (k, x) in xs {
                let k = text(k, "file name")?;
                match record(x) {
                    Ok(r) => {
                        if m.insert(k, r).is_some() {
                            open = Some("file name twice");
                        }
                    }
                    Err(E::Open(o)) => open = Some(o),
                    Err(e) => return Err(e),
                }
            }
            match open {
                Some(o) => Err(E::Open(o)),
                None => Ok(m),
            }
        }
        _ => bad(format!("{} is not an object", what)),
    }
}

fn doc(v: &J) -> Result<Doc, E> {
    // report a definite error before an open question
    let f = object(v, "document", &["info", "packages", "packages.conda", "repodata_version", "removed"])?;
    let mut open = None;
    let mut keep = |e: E| match e {
        E::Open(o) => {
            open = Some(o);
            Ok(())
        }
        e => Err(e),
    };
    let mut d = Doc { subdir: String::new(), repodata_version: 0, removed: vec![], packages: BTreeMap::new(), packages_conda: BTreeMap::new() };
    match object(&f.m["info"], "info", &["subdir"]).and_then(|i| text(&i.m["subdir"], "subdir")) {
        Ok(x) => d.subdir = x,
        Err(e) => keep(e)?,
    }
    match records(&f.m["packages"], "packages") {
        Ok(x) => d.packages = x,
        Err(e) => keep(e)?,
    }
    match records(&f.m["packages.conda"], "packages.conda") {
        Ok(x) => d.packages_conda = x,
        Err(e) => keep(e)?,
    }
    match uint(&f.m["repodata_version"], 255, "repodata_version") {
        Ok(x) => d.repodata_version = x,
        Err(e) => keep(e)?,
    }
    d.removed = texts(&f.m["removed"], "removed")?;
    match open {
        Some(o) => Err(E::Open(o)),
        None => Ok(d),
    }
}

/// What loading these bytes must do.
pub fn verdict(bytes: &[u8]) -> Verdict {
    let t = match std::str::from_utf8(bytes) {
        Ok(t) => t,
        Err(_) => return Verdict::Invalid("not UTF-8".into()),
    };
    match Parser::document(t) {
        (_, true) => Verdict::Open("deep nesting"),
        (None, _) => Verdict::Invalid("not JSON".into()),
        (Some(v), _) => match doc(&v) {
            Ok(d) => Verdict::Valid(d),
            Err(E::Bad(m)) => Verdict::Invalid(m),
            Err(E::Open(o)) => Verdict::Open(o),
        },
    }
}

// ---- generation ----

pub fn string(s: &mut Src) -> String {
    match s.weighted(&[10, 6, 4, 2, 2]) {
        4 => {
            // digests and the like: any letter case
            let n = *s.pick(&[8usize, 32, 40, 64, 128]);
            let style = s.below(3);
            let digits: &[u8] = match style {
                0 => b"0123456789abcdef",
                1 => b"0123456789ABCDEF",
                _ => b"0123456789abcdefABCDEF",
            };
            if s.chance(1, 2) {
                let c = *s.pick(digits) as char;
                c.to_string().repeat(n)
            } else {
                (0..n).map(|_| *s.pick(digits) as char).collect()
            }
        }
        0 => s.pick(&["numpy", "win-64", "py37_0", "python >=3.7,<3.8.0a0", "", "libgcc", "noarch", "zlib 1.2.11", "0", "null", "a-b_c.d", "_libgcc_mutex 0.1 main", "packages", "version"]).to_string(),
        1 => {
            let mut t = String::new();
            while s.more(t.len(), 0, 64, 9, 10) {
                t.push(*s.pick(&['a', '0', 'f', 'b', '3', '9', 'c', '-', '_', ' ', '.', '=']));
            }
            t
        }
        2 => {
            let mut t = String::new();
            while s.more(t.len(), 0, 40, 5, 6) {
                t.push(match s.below(4) {
                    0 => *s.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{1f}', '\u{7f}', '\u{80}', '\u{2028}', '\u{feff}']),
                    _ => gen::wide_char(s),
                });
            }
            t
        }
        _ => {
            let k = if s.chance(1, 40) { gen::scale(s, 300_000) } else { 1usize << s.below(11) };
            s.pick(&["x", "é", "ab", "\"", "\\u", "🦀"]).repeat(k)
        }
    }
}

pub fn uint_in(s: &mut Src, max: u64) -> u64 {
    let v = match s.weighted(&[4, 3, 2, 2, 1]) {
        0 => s.below(10),
        1 => s.below(100_000),
        2 => {
            let k = s.below(64);
            (1u64 << k).wrapping_add(s.below(3)).wrapping_sub(1)
        }
        3 => max - s.below(3),
        _ => { let k = s.below(64); s.below(1u64 << k) }
    };
    if v > max {
        v % (max / 2 + 1)
    } else {
        v
    }
}

/// How to write JSON: each choice is drawn as it is needed.
pub struct Style {
    ws: bool,
    esc: bool,
}

fn ws(s: &mut Src, st: &Style, o: &mut String) {
    if st.ws {
        while s.more(0, 0, 1, 1, 4) {
            o.push(*s.pick(&[' ', '\n', '\t', '\r']));
            if s.chance(1, 2) {
                break;
            }
        }
    }
}

fn put_str(s: &mut Src, st: &Style, t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || (st.esc && s.chance(1, 6)) {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(x) if !st.esc || s.chance(1, 2) => {
                    o.push('\\');
                    o.push(x);
                }
                _ => {
                    let mut b = [0u16; 2];
                    let up = st.esc && s.chance(1, 2);
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&if up { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) });
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
}

pub fn put(s: &mut Src, st: &Style, v: &J, o: &mut String) {
    match v {
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => o.push_str(n),
        J::BadStr => o.push_str("\"\\ud800\""),
        J::Str(t) => put_str(s, st, t, o),
        J::Arr(xs) => {
            o.push('[');
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(s, st, o);
                put(s, st, x, o);
                ws(s, st, o);
            }
            o.push(']');
        }
        J::Obj(xs) => {
            o.push('{');
            for (i, (k, x)) in xs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(s, st, o);
                put(s, st, k, o);
                ws(s, st, o);
                o.push(':');
                ws(s, st, o);
                put(s, st, x, o);
                ws(s, st, o);
            }
            o.push('}');
        }
    }
}

/// Any JSON value, small.
pub fn any(s: &mut Src, depth: usize) -> J {
    match s.weighted(&[2, 2, 3, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => J::Null,
        1 => J::Bool(s.chance(1, 2)),
        2 => J::Num(s.pick(&["0", "1", "-1", "1.5", "1e3", "-0.0", "123456", "2E-2", "0.1e+1"]).to_string()),
        3 => J::Str(string(s)),
        4 => {
            let mut xs = vec![];
            while s.more(xs.len(), 0, 4, 1, 2) {
                xs.push(any(s, depth - 1));
            }
            J::Arr(xs)
        }
        _ => {
            let mut xs = vec![];
            while s.more(xs.len(), 0, 4, 1, 2) {
                xs.push((J::Str(string(s)), any(s, depth - 1)));
            }
            J::Obj(xs)
        }
    }
}

/// Add unknown fields (also ones named like fields of other objects) and shuffle.
fn dress(s: &mut Src, mut xs: Vec<(J, J)>, extras: bool) -> J {
    if extras {
        while s.more(0, 0, 1, 1, 5) {
            let k = if s.chance(1, 2) {
                s.pick(&["license", "legacy_bz2_md5", "arch", "constrains", "track_features", "noarch", "Version", "build ", "subdir2", "", "pack ages", "url", "\u{e9}"]).to_string()
            } else {
                let mut k = string(s);
                k.push('~');
                k
            };
            xs.push((J::Str(k), any(s, 2)));
        }
    }
    if s.chance(1, 2) {
        for i in (1..xs.len()).rev() {
            let j = s.below_us(i + 1);
            xs.swap(i, j);
        }
    }
    J::Obj(xs)
}

fn kv(k: &str, v: J) -> (J, J) {
    (J::Str(k.into()), v)
}

pub fn rec(s: &mut Src, extras: bool) -> J {
    let strs = |s: &mut Src| {
        let mut xs = vec![];
        while s.more(xs.len(), 0, 12, 2, 3) {
            xs.push(J::Str(string(s)));
        }
        if !xs.is_empty() && s.chance(1, 100) {
            let n = gen::scale(s, 4000);
            let x = xs[0].clone();
            xs.extend(std::iter::repeat(x).take(n));
            xs.push(J::Str("last".into()));
        }
        J::Arr(xs)
    };
    let version = if s.chance(1, 5) {
        let t = gen::text(s);
        gen::parsable(t)
    } else {
        gen::version(s)
    };
    let xs = vec![
        kv("build", J::Str(string(s))),
        kv("build_number", J::Num(uint_in(s, 65535).to_string())),
        kv("depends", strs(s)),
        kv("md5", J::Str(string(s))),
        kv("name", J::Str(string(s))),
        kv("sha256", J::Str(string(s))),
        kv("size", J::Num(uint_in(s, u64::max_value()).to_string())),
        kv("timestamp", J::Num(uint_in(s, u64::max_value()).to_string())),
        kv("version", J::Str(version)),
    ];
    dress(s, xs, extras)
}

const STEMS: [&str; 4] = ["numpy-1.16.4-py37_0", "zlib-1.2.11-0", "a-1-0", "b-2-h0"];

fn recs(s: &mut Src, extras: bool, big: bool) -> J {
    let mut xs: Vec<(J, J)> = vec![];
    let (num, max) = if big { (99, 400) } else { (60, 12) };
    let mut names = std::collections::BTreeSet::new();
    while s.more(xs.len(), 0, max, num, 100) {
        let mut n = match s.weighted(&[3, 4, 3]) {
            0 => string(s),
            1 => format!("{}-{}.tar.bz2", s.pick(&["numpy", "zlib", "a", "b"]), gen::number(s)),
            // few stems, so that both sections have them, under the same name or the other ending
            _ => format!("{}{}", s.pick(&STEMS), s.pick(&[".tar.bz2", ".conda", ".tar.bz2", ".conda", "", ".TAR.BZ2", ".tar.bz2.conda"])),
        };
        while !names.insert(n.clone()) {
            n.push('x');
        }
        xs.push((J::Str(n), rec(s, extras)));
    }
    if !xs.is_empty() && s.chance(1, 400) {
        // very many alike
        let n = gen::scale(s, 4000);
        let (_, x) = xs[xs.len() - 1].clone();
        for i in 0..n {
            let k = format!("copy-{}", i);
            if names.insert(k.clone()) {
                xs.push((J::Str(k), x.clone()));
            }
        }
    }
    J::Obj(xs)
}

/// A valid document as a value.
pub fn document(s: &mut Src) -> J {
    let extras = s.chance(1, 2);
    let big = s.chance(1, 60);
    let info = vec![kv("subdir", J::Str(string(s)))];
    let info = dress(s, info, extras);
    let mut removed = vec![];
    while s.more(removed.len(), 0, 10, 1, 2) {
        let t = if s.chance(1, 3) { format!("{}{}", s.pick(&STEMS), s.pick(&[".tar.bz2", ".conda"])) } else { string(s) };
        removed.push(J::Str(t));
    }
    if !removed.is_empty() && s.chance(1, 60) {
        let n = gen::scale(s, 6000);
        let x = removed[0].clone();
        removed.extend(std::iter::repeat(x).take(n));
        removed.push(J::Str("last".into()));
    }
    let xs = vec![
        kv("info", info),
        kv("packages", recs(s, extras, big)),
        kv("packages.conda", recs(s, extras, big)),
        kv("repodata_version", J::Num(uint_in(s, 255).to_string())),
        kv("removed", J::Arr(removed)),
    ];
    dress(s, xs, extras)
}

/// The same document with the fields of every object in another order.
pub fn shuffle(s: &mut Src, v: &J) -> J {
    match v {
        J::Obj(xs) => {
            let mut ys: Vec<(J, J)> = xs.iter().map(|(k, x)| (k.clone(), shuffle(s, x))).collect();
            for i in (1..ys.len()).rev() {
                let j = s.below_us(i + 1);
                ys.swap(i, j);
            }
            J::Obj(ys)
        }
        J::Arr(xs) => J::Arr(xs.iter().map(|x| shuffle(s, x)).collect()),
        v => v.clone(),
    }
}

/// Give one record another version (adds a record when there is none).
pub fn set_version(s: &mut Src, v: &mut J, text: String) {
    let want = *s.pick(&["packages", "packages.conda"]);
    if let J::Obj(xs) = v {
        for (k, x) in xs {
            if *k == J::Str(want.into()) {
                if let J::Obj(rs) = x {
                    if rs.is_empty() {
                        let r = rec(s, false);
                        rs.push((J::Str("a-1.tar.bz2".into()), r));
                    }
                    let i = s.below_us(rs.len());
                    if let J::Obj(fs) = &mut rs[i].1 {
                        for (k, x) in fs {
                            if *k == J::Str("version".into()) {
                                *x = J::Str(text);
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn write(s: &mut Src, v: &J) -> String {
    let st = Style { ws: s.chance(1, 2), esc: s.chance(1, 2) };
    let mut o = String::new();
    ws(s, &st, &mut o);
    put(s, &st, v, &mut o);
    ws(s, &st, &mut o);
    o
}

/// Something close to the JSON text that other formats, or lenient readers, would take.
pub fn dialect(s: &mut Src, t: &str) -> Vec<u8> {
    fn at(s: &mut Src, t: &str, of: &[u8]) -> Option<usize> {
        let all: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| of.contains(b)).map(|(i, _)| i).collect();
        if all.is_empty() {
            None
        } else {
            Some(*s.pick(&all))
        }
    }
    let mut o = t.to_string();
    match s.below(10) {
        0 | 1 => {
            let x = *s.pick(&["\u{feff}", "\u{feff}", "\u{b}", "\u{c}", "\u{a0}", "\0", "//x\n", "/**/", ")]}'\n", "#\n", "\u{2028}", "\u{3000}", "\u{85}", "---\n", "\u{1e}"]);
            if s.chance(1, 2) {
                o.insert_str(0, x);
            } else {
                o.push_str(x);
            }
        }
        2 => {
            // between tokens (or, seldom, inside a string)
            let x = *s.pick(&["\u{feff}", "\u{b}", "\u{a0}", "/* x */", "//x\n", "#\n", "\0", "\u{2028}", ";", ","]);
            if let Some(i) = at(s, &o, b"{}[],:") {
                o.insert_str(i + s.below_us(2), x);
            }
        }
        3 => {
            if let Some(i) = at(s, &o, b"}]") {
                o.insert(i, ',');
            }
        }
        4 => {
            o = o.replace('"', "'");
        }
        5 => {
            // a value or key without quotes
            if let Some(i) = at(s, &o, b"\"") {
                o.remove(i);
                if let Some(j) = o[i..].find('"') {
                    o.remove(i + j);
                }
            }
        }
        6 => {
            if let Some(i) = at(s, &o, b"0123456789") {
                let x = *s.pick(&["0", "+", "-", ".", "0x", "_", "1.", "1e", "00", " ", "NaN", "1,"]);
                o.insert_str(i, x);
            }
        }
        7 => {
            // other encodings
            let big = s.chance(1, 2);
            let mut b: Vec<u8> = if s.chance(1, 2) { if big { vec![0xfe, 0xff] } else { vec![0xff, 0xfe] } } else { vec![] };
            for u in t.encode_utf16() {
                b.extend_from_slice(&if big { u.to_be_bytes() } else { u.to_le_bytes() });
            }
            return b;
        }
        8 => {
            // ends one to three characters early
            let n = 1 + s.below_us(3);
            for _ in 0..n {
                o.pop();
            }
        }
        _ => {
            let twice = o.clone();
            o.push_str(s.pick(&["", "\n", ",", " "]));
            o.push_str(&twice);
        }
    }
    o.into_bytes()
}

/// Break a document in one place: a field lost, doubled, retyped or out of range, somewhere.
pub fn corrupt(s: &mut Src, v: &mut J) {
    // walk to a random object on the way down
    let go = s.chance(2, 3);
    match v {
        J::Obj(xs) if !xs.is_empty() => {
            let i = s.below_us(xs.len());
            if go && matches!(xs[i].1, J::Obj(_) | J::Arr(_)) {
                return corrupt(s, &mut xs[i].1);
            }
            match s.weighted(&[3, 2, 5, 1, 1]) {
                0 => {
                    xs.remove(i);
                }
                1 => {
                    let mut x = xs[i].clone();
                    if s.chance(1, 3) {
                        x.1 = any(s, 1);
                    }
                    let j = s.below_us(xs.len() + 1);
                    xs.insert(j, x);
                }
                2 => xs[i].1 = replace(s, &xs[i].1),
                3 => {
                    let n = string(s);
                    xs[i].0 = J::Str(n)
                }
                _ => {
                    // rename by case or spacing
                    if let J::Str(k) = &xs[i].0 {
                        let k2 = if s.chance(1, 2) { k.to_uppercase() } else { k.replace('.', "_") + if k.contains('.') { "" } else { " " } };
                        xs[i].0 = J::Str(k2);
                    }
                }
            }
        }
        J::Arr(xs) if !xs.is_empty() => {
            let i = s.below_us(xs.len());
            xs[i] = replace(s, &xs[i]);
        }
        v => *v = replace(s, v),
    }
}

fn replace(s: &mut Src, old: &J) -> J {
    match old {
        J::Num(n) => match s.below(4) {
            0 => J::Num(s.pick(&["-1", "256", "65536", "18446744073709551616", "1.0", "1e2", "-0", "4294967296", "0.5", "99999999999999999999999", "255", "65535", "-32768", "257", "66000"]).to_string()),
            1 => J::Str(n.clone()),
            2 => J::Num(format!("{}0", n)),
            _ => any(s, 1),
        },
        J::Str(_) => match s.below(3) {
            0 => J::Str(s.pick(&["1!2!3", "a!1", "1+2+3", "!", "32768!1", "1.0", "+ +", "!!"]).to_string()),
            1 => any(s, 1),
            _ => J::Arr(vec![old.clone()]),
        },
        _ => any(s, 1),
    }
}
