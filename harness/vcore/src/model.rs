//! Reference model of versions: parsing, ranking, prefix test. Written from the property
//! statements; shares no code with the library (plain byte scanning, no regexes).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Tok {
    Epoch(i16),
    /// a negative number, only from parsers of the caller's; ranked among numbers only
    Neg(i64),
    /// decimal digits without leading zeros ("" is never used: zero is "0")
    Num(String),
    Tag(String),
    Local(String),
    Empty,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Refusal {
    Epochs,
    Locals,
    BothRepeated,
    BadEpoch,
}

fn is_sep(c: char) -> bool {
    c == '.' || c == '-' || c == '_'
}

/// Whether the text is an optional sign and digits with a value that fits 16 bits.
pub fn epoch_value(t: &str) -> Option<i16> {
    let (neg, digits) = match t.as_bytes().first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b >= b'0' && b <= b'9') {
        return None;
    }
    let d = digits.trim_start_matches('0');
    if d.len() > 5 {
        return None;
    }
    let mut v: i32 = 0;
    for b in d.bytes() {
        v = v * 10 + (b - b'0') as i32;
    }
    let v = if neg { -v } else { v };
    if v < -32768 || v > 32767 {
        None
    } else {
        Some(v as i16)
    }
}

pub fn strip_zeros(d: &str) -> String {
    let t = d.trim_start_matches('0');
    if t.is_empty() {
        "0".to_string()
    } else {
        t.to_string()
    }
}

/// Why the text is refused, if it is. Holds for every Unicode text.
pub fn refusal(text: &str) -> Option<Refusal> {
    let bangs = text.matches('!').count();
    let rest = match text.rfind('!') {
        Some(i) => &text[i + 1..],
        None => text,
    };
    if bangs > 1 {
        return Some(if text.matches('+').count() > 1 { Refusal::BothRepeated } else { Refusal::Epochs });
    }
    if bangs == 1 && epoch_value(&text[..text.find('!').unwrap()]).is_none() {
        return Some(Refusal::BadEpoch);
    }
    if rest.matches('+').count() > 1 {
        return Some(Refusal::Locals);
    }
    None
}

/// The components of an accepted text (digits: ASCII only, so the model is for ASCII texts).
pub fn parse(text: &str) -> Option<Vec<Tok>> {
    if refusal(text).is_some() {
        return None;
    }
    let mut out = vec![];
    let mut rest = text;
    if let Some(i) = text.find('!') {
        out.push(Tok::Epoch(epoch_value(&text[..i]).unwrap()));
        rest = &text[i + 1..];
    }
    let (main, local) = match rest.find('+') {
        Some(i) => (&rest[..i], &rest[i + 1..]),
        None => (rest, ""),
    };
    let mut cur = String::new();
    let mut cur_digit = false;
    let flush = |cur: &mut String, digit: bool, out: &mut Vec<Tok>| {
        if !cur.is_empty() {
            out.push(if digit { Tok::Num(strip_zeros(cur)) } else { Tok::Tag(cur.clone()) });
            cur.clear();
        }
    };
    for c in main.chars() {
        if is_sep(c) {
            flush(&mut cur, cur_digit, &mut out);
            continue;
        }
        let d = c.is_ascii_digit();
        if d != cur_digit {
            flush(&mut cur, cur_digit, &mut out);
        }
        cur_digit = d;
        cur.push(c);
    }
    flush(&mut cur, cur_digit, &mut out);
    if !local.is_empty() {
        out.push(Tok::Local(local.to_string()));
    }
    if out.is_empty() {
        out.push(Tok::Empty);
    }
    Some(out)
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Rank<'a> {
    Empty,
    Dev,
    Tag(String),
    Neg(i64),
    Nothing,
    Post,
    Local(&'a [u8]),
    Positive(usize, &'a str),
    Epoch(i16),
}

fn rank(t: Option<&Tok>) -> Rank<'_> {
    match t {
        None => Rank::Nothing,
        Some(Tok::Empty) => Rank::Empty,
        Some(Tok::Epoch(e)) => Rank::Epoch(*e),
        Some(Tok::Neg(n)) => Rank::Neg(*n),
        Some(Tok::Num(d)) => {
            if d == "0" {
                Rank::Nothing
            } else {
                Rank::Positive(d.len(), d)
            }
        }
        Some(Tok::Local(l)) => Rank::Local(l.as_bytes()),
        Some(Tok::Tag(t)) => {
            let low = t.to_ascii_lowercase();
            if low.contains("post") {
                Rank::Post
            } else if low.contains("dev") {
                Rank::Dev
            } else {
                Rank::Tag(low)
            }
        }
    }
}

pub fn cmp_tok(a: Option<&Tok>, b: Option<&Tok>) -> Ordering {
    rank(a).cmp(&rank(b))
}

pub fn cmp(a: &[Tok], b: &[Tok]) -> Ordering {
    for i in 0..a.len().max(b.len()) {
        match cmp_tok(a.get(i), b.get(i)) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}

pub fn startswith(a: &[Tok], b: &[Tok]) -> bool {
    b.len() <= a.len() && (0..b.len()).all(|i| cmp_tok(a.get(i), b.get(i)) == Ordering::Equal)
}

/// The text a component displays as.
pub fn show(t: &Tok) -> String {
    match t {
        Tok::Epoch(e) => format!("Epoch({})", e),
        Tok::Num(d) => format!("Integer({})", d),
        Tok::Neg(n) => format!("Integer({})", n),
        Tok::Tag(s) => format!("PEP440String({})", s),
        Tok::Local(s) => format!("LexicographicString({})", s),
        Tok::Empty => "Empty".to_string(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

impl Op {
    pub fn sign(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
    pub fn holds(self, o: Ordering) -> bool {
        match self {
            Op::Eq => o == Ordering::Equal,
            Op::Ne => o != Ordering::Equal,
            Op::Lt => o == Ordering::Less,
            Op::Le => o != Ordering::Greater,
            Op::Gt => o == Ordering::Greater,
            Op::Ge => o != Ordering::Less,
        }
    }
}

/// '*' stands for any run of characters, everything else for itself.
pub fn glob(pat: &[u8], text: &[u8]) -> bool {
    // cur[j]: pat[..i] matches text[..j]
    let mut cur = vec![false; text.len() + 1];
    cur[0] = true;
    for &p in pat {
        let mut next = vec![false; text.len() + 1];
        if p == b'*' {
            let mut any = false;
            for j in 0..=text.len() {
                any |= cur[j];
                next[j] = any;
            }
        } else {
            for j in 0..text.len() {
                next[j + 1] = cur[j] && text[j] == p;
            }
        }
        cur = next;
    }
    cur[text.len()]
}
