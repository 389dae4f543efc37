//! C17: the Python class, driven through a stand-in for the interpreter.
extern crate rondapy;

use cpython::{Class, PyModule, PyObject, PyResult, Python, ToPyObject, OPS};
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::runner::Plan;
use vcore::spec;
use vcore::{Prop, Src, Stats};

extern "Rust" {
    fn __vpy_module_init(py: Python, m: &PyModule) -> PyResult<()>;
}

fn class() -> Result<Class, String> {
    let m = PyModule::default();
    let r = unsafe { __vpy_module_init(Python::acquire(), &m) };
    r.map_err(|e| format!("importing the module raises {}: {}", e.kind, e.text))?;
    let mut cs = m.classes.into_inner();
    let i = cs.iter().position(|c| c.name == "RustyVersion").ok_or("the module has no class RustyVersion")?;
    Ok(cs.remove(i))
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
struct Texts {
    texts: Vec<String>,
}

struct C17;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => {
        if !$c {
            return Err(format!($($a)+));
        }
    };
}

impl Prop for C17 {
    type Case = Texts;
    const ID: &'static str = "C17";
    const RULE: &'static str = "a case is two to four texts made into Python objects; non-trivial if two of them are different and parse, or one does not parse; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 60_000_000, guided: 20_000_000 }
        } else {
            Plan { random: 1_000_000, guided: 300_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Texts {
        let mut texts = vec![gen::version(s)];
        while s.more(texts.len(), 2, 4, 1, 2) {
            let t = s.pick(&texts).clone();
            texts.push(match s.weighted(&[8, 3, 2]) {
                0 => spec::near_text(s, &t),
                1 => gen::version(s),
                _ => gen::text(s),
            });
        }
        Texts { texts }
    }
    fn check(&self, c: &Texts, st: &mut Stats) -> Result<(), String> {
        let class = class()?;
        let py = Python::acquire();
        let mut live: Vec<(&str, ronda::Version, PyObject)> = vec![];
        for t in &c.texts {
            let made = class.call("__new__", None, &[t.to_py_object(py)]);
            match (t.parse::<ronda::Version>(), made) {
                (Ok(v), Ok(o)) => live.push((t, v, o)),
                (Ok(_), Err(e)) => return Err(format!("RustyVersion({:?}) raises {}: {}", t, e.kind, e.text)),
                (Err(_), Ok(_)) => return Err(format!("RustyVersion({:?}) gives an object although the text does not parse", t)),
                (Err(_), Err(e)) => {
                    st.label("refused");
                    st.nontrivial();
                    ensure!(!e.text.is_empty() || !e.kind.is_empty(), "RustyVersion({:?}) raises nothing", t);
                }
            }
        }
        // twice: an answer must not depend on what was asked before
        for _ in 0..2 {
            for (t, a, x) in &live {
                let r = class.call("__repr__", Some(x), &[]).map_err(|e| format!("repr({:?}) raises {}: {}", t, e.kind, e.text))?;
                ensure!(r.as_str() == Some(t), "repr of RustyVersion({:?}) is {:?}", t, r.as_str());
                for special in &["__str__"] {
                    if class.has(special) {
                        let r = class.call(special, Some(x), &[]).map_err(|e| format!("{}({:?}) raises {}: {}", special, t, e.kind, e.text))?;
                        ensure!(r.as_str() == Some(t), "{} of RustyVersion({:?}) is {:?}", special, t, r.as_str());
                    }
                }
                for (u, b, y) in &live {
                    let three = a.compare_version(b);
                    for op in &OPS {
                        use cpython::CompareOp as O;
                        let want = match (op, &three) {
                            (O::Lt, o) => *o == ronda::CompOp::Lt,
                            (O::Le, o) => *o != ronda::CompOp::Gt,
                            (O::Eq, o) => *o == ronda::CompOp::Eq,
                            (O::Ne, o) => *o != ronda::CompOp::Eq,
                            (O::Gt, o) => *o == ronda::CompOp::Gt,
                            (O::Ge, o) => *o != ronda::CompOp::Lt,
                        };
                        let got = class
                            .call("__richcmp__", Some(x), &[(*y).clone(), op.to_py_object(py)])
                            .map_err(|e| format!("{:?} {:?} {:?} raises {}: {}", t, op, u, e.kind, e.text))?;
                        ensure!(got.as_bool() == Some(want), "in Python {:?} {:?} {:?} is {:?}, in the library they compare {:?}", t, op, u, got.as_bool(), three);
                    }
                    if class.has("__hash__") && three == ronda::CompOp::Eq {
                        let hash = |o: &PyObject| class.call("__hash__", Some(o), &[]).map(|h| h.as_int());
                        if let (Ok(g), Ok(h)) = (hash(x), hash(y)) {
                            ensure!(g == h, "RustyVersion({:?}) and RustyVersion({:?}) are equal and have different hashes", t, u);
                        }
                    }
                    let want = a.startswith(b);
                    let got = class.call("startswith", Some(x), &[(*y).clone()]).map_err(|e| format!("{:?}.startswith({:?}) raises {}: {}", t, u, e.kind, e.text))?;
                    ensure!(got.as_bool() == Some(want), "in Python {:?}.startswith({:?}) is {:?}, in the library {}", t, u, got.as_bool(), want);
                    st.nontrivial_if(t != u);
                    st.label_if(t != u && three == ronda::CompOp::Eq, "different texts, equal");
                    st.label_if(t != u && want, "different texts, prefix");
                }
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the binding's own source is compiled against a stand-in for the cpython crate (the real one cannot run with the Python installed here); argument conversion by the interpreter itself is not exercised".into()]
    }
}

fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    if argv.len() < 2 {
        eprintln!("usage: vpy run|replay|show <property> [...]");
        std::process::exit(2);
    }
    vcore::runner::main_with(C17, &argv, &["/repo/core/src", "/repo/python/src"]);
}
