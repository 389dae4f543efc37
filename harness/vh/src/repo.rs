//! C15, C16: loading repodata files.
use crate::ensure;
use crate::util::*;
use ronda::{read_repodata, Record, Repodata};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vcore::json::{self, Doc, Rec, Verdict};
use vcore::runner::Plan;
use vcore::{gen, model, Prop, Src, Stats};

/// A directory of this process, removed at the end of the run with the runner's scratch.
fn scratch() -> PathBuf {
    let base = match std::env::var("VERIF_SCRATCH") {
        Ok(d) if !d.is_empty() => PathBuf::from(d),
        _ => std::env::temp_dir(),
    };
    let d = base.join(format!("repo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap_or_else(|e| panic!("HARNESS scratch: {}", e));
    d
}

static N: AtomicU64 = AtomicU64::new(0);

struct TempFile(PathBuf);
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
        if let Some(d) = self.0.parent() {
            let _ = std::fs::remove_dir(d);
        }
    }
}

fn file(bytes: &[u8]) -> TempFile {
    let p = scratch().join(format!("{}.json", N.fetch_add(1, Ordering::Relaxed) % 4));
    std::fs::write(&p, bytes).unwrap_or_else(|e| panic!("HARNESS scratch: {}", e));
    TempFile(p)
}

fn same_record(key: &str, got: &Record, want: &Rec) -> Result<(), String> {
    macro_rules! field {
        ($f:ident) => {
            ensure!(got.$f == want.$f, "record {:?}: {} is {:?}, the document has {:?}", key, stringify!($f), got.$f, want.$f);
        };
    }
    field!(build);
    field!(depends);
    field!(md5);
    field!(name);
    field!(sha256);
    // by value, whatever integer types hold them
    macro_rules! number {
        ($f:ident) => {
            ensure!(got.$f.to_string() == want.$f.to_string(), "record {:?}: {} is {}, the document has {}", key, stringify!($f), got.$f, want.$f);
        };
    }
    number!(size);
    number!(timestamp);
    number!(build_number);
    let v = parsed(&want.version)?;
    ensure!(got.version.as_str() == want.version, "record {:?}: version is {:?}, the document has {:?}", key, got.version.as_str(), want.version);
    ensure!(
        format!("{:?}", got.version) == format!("{:?}", v),
        "record {:?}: version {:?} is loaded as {:?}, alone it parses as {:?}", key, want.version, got.version, v
    );
    ensure!(three(&got.version, &v)? == 0, "record {:?}: the loaded version {:?} is not equal to itself parsed alone", key, want.version);
    Ok(())
}

fn same_section<'a>(what: &str, got: impl IntoIterator<Item = (&'a String, &'a Record)>, want: &BTreeMap<String, Rec>) -> Result<(), String> {
    let got: HashMap<&String, &Record> = got.into_iter().collect();
    for (k, r) in want {
        match got.get(k) {
            Some(g) => same_record(k, g, r)?,
            None => return Err(format!("{:?} is missing from {}", k, what)),
        }
    }
    for k in got.keys() {
        ensure!(want.contains_key(*k), "{:?} in {} is not in the document's", k, what);
    }
    Ok(())
}

fn same_doc(got: &Repodata, want: &Doc) -> Result<(), String> {
    ensure!(got.info.subdir == want.subdir, "subdir is {:?}, the document has {:?}", got.info.subdir, want.subdir);
    ensure!(got.repodata_version.to_string() == want.repodata_version.to_string(), "repodata_version is {}, the document has {}", got.repodata_version, want.repodata_version);
    ensure!(got.removed == want.removed, "removed is {:?}, the document has {:?}", got.removed, want.removed);
    same_section("packages", &got.packages, &want.packages)?;
    same_section("packages.conda", &got.packages_conda, &want.packages_conda)
}

fn load(bytes: &[u8]) -> Result<Repodata, String> {
    let f = file(bytes);
    read_repodata(&f.0).map_err(|e| e.to_string())
}

// ---- C15 ----

pub struct C15;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Spelled {
    /// spellings of the same document
    pub texts: Vec<String>,
    /// so many spaces in front of the first
    #[serde(default)]
    pub pad: u32,
}

impl Prop for C15 {
    type Case = Spelled;
    const ID: &'static str = "C15";
    const RULE: &'static str = "a case is a valid repodata document in one to three spellings (field order, whitespace, escapes, unknown fields); non-trivial if it has at least two records; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 15_000_000, guided: 4_000_000 }
        } else {
            Plan { random: 250_000, guided: 50_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Spelled {
        let d = json::document(s);
        let mut texts = vec![];
        while s.more(texts.len(), 1, 3, 1, 3) {
            let d = if texts.is_empty() { d.clone() } else { json::shuffle(s, &d) };
            texts.push(json::write(s, &d));
        }
        let pad = match s.weighted(&[400, 30, 1]) {
            0 => 0,
            1 => {
                // the text on a multiple of a power of two
                let p = 1u32 << (10 + s.below(8));
                p.saturating_sub(s.below(texts[0].len() as u64 + 1) as u32)
            }
            _ => gen::scale(s, 40_000_000) as u32,
        };
        Spelled { texts, pad }
    }
    fn check(&self, c: &Spelled, st: &mut Stats) -> Result<(), String> {
        let mut first: Option<Doc> = None;
        for (i, t) in c.texts.iter().enumerate() {
            let want = match json::verdict(t.as_bytes()) {
                Verdict::Valid(d) => d,
                v => return Err(format!("HARNESS: a generated document is {:?}", v)),
            };
            let mut bytes = vec![];
            if i == 0 {
                bytes.resize(c.pad as usize, b' ');
            }
            bytes.extend_from_slice(t.as_bytes());
            let got = load(&bytes).map_err(|e| format!("a valid document is refused: {}", e))?;
            same_doc(&got, &want)?;
            match &first {
                Some(f) => {
                    if *f != want {
                        return Err("HARNESS: spellings differ".into());
                    }
                }
                None => first = Some(want),
            }
        }
        let d = first.unwrap();
        let n = d.packages.len() + d.packages_conda.len();
        st.nontrivial_if(n >= 2);
        st.label_if(n > 100, "more than 100 records");
        st.label_if(!d.packages.is_empty() && !d.packages_conda.is_empty(), "both sections");
        st.label_if(d.packages.keys().any(|k| d.packages_conda.contains_key(k)), "same file name in both sections");
        st.label_if(c.texts.len() > 1, "several spellings");
        st.label_if(c.texts[0].contains('\\'), "with escapes");
        st.label_if(c.pad as usize + c.texts[0].len() > 1 << 20, "more than 1 MiB");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["what a document says is read off its text by the harness's own strict JSON reader; the version value by parsing its text alone (decided by C06, C07)".into()]
    }
}

// ---- C16 ----

pub struct C16;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Bad {
    Text(String),
    Bytes(Vec<u8>),
    /// no file of this name
    Missing(String),
    Dir,
    /// a path through a regular file
    UnderFile,
    Dangling,
    Loop,
    EmptyPath,
    NulPath,
}

impl Prop for C16 {
    type Case = Bad;
    const ID: &'static str = "C16";
    const RULE: &'static str = "a case is a path or the bytes of a file; non-trivial if it is something that must be refused; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 40_000_000, guided: 15_000_000 }
        } else {
            Plan { random: 700_000, guided: 200_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Bad {
        match s.weighted(&[10, 6, 6, 3, 2, 1, 4]) {
            6 => {
                let d = json::document(s);
                let t = json::write(s, &d);
                match String::from_utf8(json::dialect(s, &t)) {
                    Ok(t) => Bad::Text(t),
                    Err(e) => Bad::Bytes(e.into_bytes()),
                }
            }
            0 => {
                // one to three fields broken
                let mut d = json::document(s);
                let k = 1 + s.below(8) / 6;
                for _ in 0..k {
                    json::corrupt(s, &mut d);
                }
                Bad::Text(json::write(s, &d))
            }
            1 => {
                // one version broken
                let mut d = json::document(s);
                let v = match s.below(3) {
                    0 => gen::text(s),
                    1 => {
                        let mut v: Vec<char> = gen::version(s).chars().collect();
                        for _ in 0..1 + s.below(2) {
                            let i = s.below_us(v.len() + 1);
                            v.insert(i, *s.pick(&['!', '+', '\u{e9}', '!', '9']));
                        }
                        v.into_iter().collect()
                    }
                    _ => format!("{}!{}", s.pick(&["a", "", "32768", "-32769", "1.0", " 1", "1!1", "0x1", "99999999999999999999"]), gen::version(s)),
                };
                json::set_version(s, &mut d, v);
                Bad::Text(json::write(s, &d))
            }
            2 => {
                // bytes edited
                let d = json::document(s);
                let mut b = json::write(s, &d).into_bytes();
                let k = 1 + s.below(3);
                for _ in 0..k {
                    let i = s.below_us(b.len() + 1);
                    match s.below(4) {
                        0 if i < b.len() => {
                            b.remove(i);
                        }
                        1 if i < b.len() => b[i] = s.below(256) as u8,
                        2 if i < b.len() => b[i] = *s.pick(b"{}[]\",:0-\\nt "),
                        _ => b.insert(i, *s.pick(b"{}[]\",:0-\\nt \xff\xc3")),
                    }
                }
                match String::from_utf8(b) {
                    Ok(t) => Bad::Text(t),
                    Err(e) => Bad::Bytes(e.into_bytes()),
                }
            }
            3 => {
                // truncated, or with something after it
                let d = json::document(s);
                let mut b = json::write(s, &d).into_bytes();
                if s.chance(3, 4) {
                    let i = s.below_us(b.len() + 1);
                    b.truncate(i);
                } else {
                    let tail = *s.pick(&["x", "{}", "}", "\0", ",", "null", " \n", "\u{feff}"]);
                    b.extend_from_slice(tail.as_bytes());
                }
                match String::from_utf8(b) {
                    Ok(t) => Bad::Text(t),
                    Err(e) => Bad::Bytes(e.into_bytes()),
                }
            }
            4 => match s.below(3) {
                0 => Bad::Text({ let v = json::any(s, 3); json::write(s, &v) }),
                1 => Bad::Text({
                    let k = 1usize << s.below(13);
                    let open = *s.pick(&["[", "{\"a\":", "[[", "\"", "1"]);
                    open.repeat(k)
                }),
                _ => {
                    let mut b = vec![];
                    while s.more(b.len(), 0, 60, 9, 10) {
                        b.push(s.below(256) as u8);
                    }
                    Bad::Bytes(b)
                }
            },
            _ => match s.below(8) {
                0 => Bad::Missing({
                    let mut t: String = gen::text(s).chars().filter(|c| *c != '/' && *c != '\0').take(40).collect();
                    t.push_str(".missing");
                    t
                }),
                1 => Bad::Dir,
                2 => Bad::UnderFile,
                3 => Bad::Dangling,
                4 => Bad::Loop,
                5 => Bad::EmptyPath,
                6 => Bad::NulPath,
                _ => Bad::Missing("x".repeat(5000)),
            },
        }
    }
    fn check(&self, c: &Bad, st: &mut Stats) -> Result<(), String> {
        let bytes: &[u8] = match c {
            Bad::Text(t) => t.as_bytes(),
            Bad::Bytes(b) => b,
            _ => {
                st.nontrivial();
                st.label("unreadable path");
                let dir = scratch();
                let link = dir.join("link");
                let res = match c {
                    Bad::Missing(n) => read_repodata(dir.join(n)),
                    Bad::Dir => read_repodata(&dir),
                    Bad::UnderFile => {
                        let f = file(b"{}");
                        read_repodata(f.0.join("x.json"))
                    }
                    Bad::Dangling | Bad::Loop => {
                        let to = if let Bad::Loop = c { Path::new("link") } else { Path::new("nowhere") };
                        std::os::unix::fs::symlink(to, &link).unwrap_or_else(|e| panic!("HARNESS scratch: {}", e));
                        let r = read_repodata(&link);
                        let _ = std::fs::remove_file(&link);
                        r
                    }
                    Bad::NulPath => read_repodata("a\0b"),
                    _ => read_repodata(""),
                };
                let _ = std::fs::remove_dir(&dir);
                ensure!(res.is_err(), "loading {:?} gives a document", c);
                return Ok(());
            }
        };
        let want = json::verdict(bytes);
        let got = load(bytes);
        match want {
            Verdict::Invalid(why) => {
                st.nontrivial();
                st.label(if why == "not JSON" {
                    "not JSON"
                } else if why == "not UTF-8" {
                    "not UTF-8"
                } else if why.starts_with("version") {
                    "bad version"
                } else {
                    "wrong shape"
                });
                ensure!(got.is_err(), "a file that must be refused ({}) is loaded", why);
            }
            Verdict::Valid(d) => {
                st.label("still valid");
                let got = got.map_err(|e| format!("a valid document is refused: {}", e))?;
                same_doc(&got, &d)?;
            }
            Verdict::Open(why) => {
                st.label(why);
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        let _ = model::refusal("");
        vec!["open (only 'no crash' is required): JSON arrays in place of objects, '-0', a file name twice in one section, lone surrogates or very long numbers in ignored fields, nesting over 100".into()]
    }
}
