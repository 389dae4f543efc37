//! C06-C08: parsing, components, prefixes.
use crate::ensure;
use crate::order::Pair;
use crate::util::*;
use ronda::verif_hooks::VersionParsingError;
use ronda::{conda_parser, Version};
use serde::{Deserialize, Serialize};
use vcore::gen;
use vcore::model::{self, Refusal, Tok};
use vcore::runner::Plan;
use vcore::{Prop, Src, Stats};

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Text {
    pub text: String,
}

pub struct C06;

impl Prop for C06 {
    type Case = Text;
    const ID: &'static str = "C06";
    const RULE: &'static str = "a case is a text; non-trivial if it contains '!' or '+' or a character other than letters, digits and separators; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 120_000_000, guided: 40_000_000 }
        } else {
            Plan { random: 2_500_000, guided: 500_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Text {
        Text { text: gen::text(s) }
    }
    fn check(&self, c: &Text, st: &mut Stats) -> Result<(), String> {
        let t = &c.text[..];
        let want = model::refusal(t);
        let ways: [(&str, Result<Version, VersionParsingError>); 2] =
            [("parse", t.parse::<Version>()), ("Version::parse", Version::parse(t, &conda_parser))];
        for (how, got) in &ways {
            match (got, &want) {
                (Ok(v), None) => {
                    ensure!(v.as_str() == t, "{} of {:?} keeps the text {:?}", how, t, v.as_str());
                    ensure!(v.to_string() == t, "{} of {:?} displays as {:?}", how, t, v.to_string());
                    // printing the components must work too
                    let d = format!("{:?} {:#?}", v, v);
                    ensure!(!d.is_empty(), "no debug text");
                    let w = v.clone();
                    ensure!(w.as_str() == t && w.parts().len() == v.parts().len(), "a clone of {:?} differs", t);
                }
                (Err(e), Some(r)) => {
                    let ok = match r {
                        Refusal::Epochs => *e == VersionParsingError::DuplicatedEpochCharacter,
                        Refusal::Locals => *e == VersionParsingError::DuplicatedLocalSeparatorCharacter,
                        Refusal::BothRepeated => {
                            *e == VersionParsingError::DuplicatedEpochCharacter || *e == VersionParsingError::DuplicatedLocalSeparatorCharacter
                        }
                        Refusal::BadEpoch => true,
                    };
                    ensure!(ok, "{} of {:?} fails with {:?} although the reason is {:?}", how, t, e, r);
                }
                (Ok(_), Some(r)) => return Err(format!("{} accepts {:?} although it must be refused: {:?}", how, t, r)),
                (Err(e), None) => return Err(format!("{} refuses {:?}: {:?}", how, t, e)),
            }
        }
        ensure!(conda_parser(t).is_ok() == want.is_none(), "conda_parser and parse disagree on {:?}", t);
        st.nontrivial_if(t.chars().any(|c| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '_')));
        st.label(match want {
            None => "accepted",
            Some(Refusal::Epochs) => "repeated epoch",
            Some(Refusal::Locals) => "repeated local",
            Some(Refusal::BothRepeated) => "both repeated",
            Some(Refusal::BadEpoch) => "bad epoch",
        });
        st.label_if(!t.is_ascii(), "non-ASCII");
        st.label_if(t.len() > 1000, "over 1000 bytes");
        st.label_if(t.contains('!') && want.is_none(), "valid epoch");
        Ok(())
    }
}

pub struct C07;

impl Prop for C07 {
    type Case = Text;
    const ID: &'static str = "C07";
    const RULE: &'static str = "a case is a text that parses, of ASCII characters and some letters beyond; non-trivial if it has at least two components or is the empty version; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 100_000_000, guided: 40_000_000 }
        } else {
            Plan { random: 2_000_000, guided: 500_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Text {
        let t = match s.weighted(&[5, 2, 2]) {
            0 => gen::version(s),
            1 => {
                let t = gen::version(s);
                gen::widen(s, &t)
            }
            _ => gen::text(s),
        };
        let t: String = t.chars().filter(|c| c.is_ascii()).collect();
        let mut t = [gen::parsable(t)];
        gen::foreign(s, &mut t);
        let [text] = t;
        Text { text }
    }
    fn check(&self, c: &Text, st: &mut Stats) -> Result<(), String> {
        let t = &c.text[..];
        if !gen::plain(t) || model::refusal(t).is_some() {
            return Ok(());
        }
        let want = toks(t)?;
        let v = parsed(t)?;
        let show = |xs: &[ronda::VersionPart]| xs.iter().map(|p| p.to_string()).collect::<Vec<_>>();
        let model_show: Vec<String> = want.iter().map(model::show).collect();
        ensure!(show(v.parts()) == model_show, "the components of {:?} are {:?}, not {:?}", t, show(v.parts()), model_show);
        match conda_parser(t) {
            Ok(p) => ensure!(show(&p) == model_show, "conda_parser gives {:?} for {:?}, not {:?}", show(&p), t, model_show),
            Err(e) => return Err(format!("conda_parser refuses {:?}: {:?}", t, e)),
        }
        let n = want.len();
        ensure!(v.part_count() == n, "{:?} says it has {} components, not {}", t, v.part_count(), n);
        for i in 0..n {
            match v.part(i) {
                Ok(p) => ensure!(p.to_string() == model_show[i], "component {} of {:?} is {}, not {}", i, t, p, model_show[i]),
                Err(()) => return Err(format!("component {} of {:?} is refused", i, t)),
            }
        }
        for i in &[n, n + 1, n * 2, n + 255, 1 << 16, 1 << 32, usize::max_value() / 2, usize::max_value() - 1, usize::max_value()] {
            ensure!(*i < n || v.part(*i).is_err(), "component {} of {:?}, which has {}, is given", i, t, n);
        }
        st.nontrivial_if(n >= 2 || want[0] == Tok::Empty);
        st.label_if(want[0] == Tok::Empty, "empty version");
        st.label_if(matches!(want[0], Tok::Epoch(_)), "epoch");
        st.label_if(matches!(want[n - 1], Tok::Local(_)), "local label");
        st.label_if(want.iter().any(|x| matches!(x, Tok::Num(d) if d.len() > 18)), "number of 19 digits or more");
        st.label_if(n > 20, "more than 20 components");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "texts are ASCII, with some caseless letters beyond it (what counts as a digit beyond ASCII is left open)".into(),
            "components are observed through their Display text".into(),
        ]
    }
}

pub struct C08;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Prefix {
    pub a: String,
    pub b: String,
    pub c: String,
}

/// The text of the first `k` components.
fn leading(v: &gen::Vs, k: usize) -> gen::Vs {
    gen::Vs { epoch: v.epoch, comps: v.comps[..k.min(v.comps.len())].to_vec(), local: if k > v.comps.len() { v.local.clone() } else { String::new() } }
}

impl Prop for C08 {
    type Case = Prefix;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a case is three version texts; non-trivial if the second is not longer than the first and both have the same first component, and the texts differ; distinct cases counted by a 2^27-bit hash sketch (a lower bound)";
    fn plan(&self, t: bool) -> Plan {
        if t {
            Plan { random: 80_000_000, guided: 30_000_000 }
        } else {
            Plan { random: 1_500_000, guided: 400_000 }
        }
    }
    fn gen(&self, s: &mut Src) -> Prefix {
        if s.chance(1, 10) {
            // alike but for one place
            let mut t = gen::focused(s, 3, 3);
            gen::foreign(s, &mut t);
            let c = t.pop().unwrap();
            let b = t.pop().unwrap();
            return Prefix { a: t.pop().unwrap(), b, c };
        }
        let v = gen::vs(s);
        let sub = |s: &mut Src, v: &gen::Vs| -> gen::Vs {
            let k = s.below_us(v.comps.len() + 2);
            let w = leading(v, k);
            match s.weighted(&[5, 3, 1]) {
                0 => w,
                1 => gen::mutate(s, &w),
                _ => gen::vs(s),
            }
        };
        let w = sub(s, &v);
        let x = sub(s, &w);
        let messy = s.chance(1, 3);
        let mut t = [gen::render(s, &v, messy), gen::render(s, &w, messy), gen::render(s, &x, messy)];
        gen::foreign(s, &mut t);
        let [a, b, c] = t;
        Prefix { a, b, c }
    }
    fn check(&self, c: &Prefix, st: &mut Stats) -> Result<(), String> {
        let texts = [&c.a[..], &c.b[..], &c.c[..]];
        let vs = [parsed(&c.a)?, parsed(&c.b)?, parsed(&c.c)?];
        let ts = [toks(&c.a)?, toks(&c.b)?, toks(&c.c)?];
        let mut m = [[false; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = vs[i].startswith(&vs[j]);
                let want = model::startswith(&ts[i], &ts[j]);
                ensure!(m[i][j] == want, "{:?} starts with {:?}: {}, should be {}", texts[i], texts[j], m[i][j], want);
                if m[i][j] && m[j][i] && i >= j {
                    let r = three(&vs[i], &vs[j])?;
                    ensure!(r == 0, "{:?} and {:?} start with each other but the first is {} the second", texts[i], texts[j], word(r));
                }
            }
            ensure!(m[i][i], "{:?} does not start with itself", texts[i]);
        }
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    ensure!(
                        !(m[i][j] && m[j][k]) || m[i][k],
                        "{:?} starts with {:?}, which starts with {:?}, but the first does not start with the last", texts[i], texts[j], texts[k]
                    );
                }
            }
        }
        // its own leading parts
        let t0 = &ts[0];
        let mut o = String::new();
        for (i, t) in t0.iter().enumerate().take(60) {
            match t {
                Tok::Epoch(e) => o.push_str(&format!("{}!", e)),
                Tok::Neg(_) => unreachable!(),
                Tok::Num(d) => o.push_str(&format!("{}{}", if o.is_empty() || o.ends_with('!') { "" } else { "." }, d)),
                Tok::Tag(x) => o.push_str(&format!("{}{}", if o.is_empty() || o.ends_with('!') { "" } else { "." }, x)),
                Tok::Local(l) => o.push_str(&format!("+{}", l)),
                Tok::Empty => {}
            }
            let p = parsed(&o)?;
            ensure!(vs[0].startswith(&p), "{:?} does not start with its first {} components {:?}", texts[0], i + 1, o);
        }
        st.nontrivial_if(ts[1].len() <= ts[0].len() && c.a != c.b && model::cmp_tok(ts[0].get(0), ts[1].get(0)) == std::cmp::Ordering::Equal);
        st.label(if m[0][1] { "starts with" } else { "does not" });
        st.label_if(m[0][1] && m[1][2] && ts[0].len() > ts[1].len() && ts[1].len() > ts[2].len(), "chain of proper prefixes");
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["versions: letters (ASCII and some caseless ones beyond), digits, separators, epoch, local label".into()]
    }
}

#[allow(dead_code)]
pub type P = Pair;
