//! Thin access to the code under test. Nothing here judges.
use ronda::verif_hooks::{Spec, VersionSpec};
use ronda::{treeify, CompOp, ConstraintTree, Version, VersionSpecOrConstraintTree};
use std::convert::TryFrom;
use vcore::model::{self, Op};

pub fn parse(t: &str) -> Option<Version> {
    t.parse::<Version>().ok()
}

pub fn parsed(t: &str) -> Result<Version, String> {
    t.parse::<Version>().map_err(|e| format!("{:?} does not parse as a version: {:?}", t, e))
}

pub fn op(o: Op) -> CompOp {
    match o {
        Op::Eq => CompOp::Eq,
        Op::Ne => CompOp::Ne,
        Op::Lt => CompOp::Lt,
        Op::Le => CompOp::Le,
        Op::Gt => CompOp::Gt,
        Op::Ge => CompOp::Ge,
    }
}

pub const ALL: [CompOp; 10] = [
    CompOp::Eq,
    CompOp::Ne,
    CompOp::Lt,
    CompOp::Le,
    CompOp::Ge,
    CompOp::Gt,
    CompOp::StartsWith,
    CompOp::NotStartsWith,
    CompOp::Compatible,
    CompOp::Incompatible,
];

/// -1, 0, 1 from the three-way comparison.
pub fn three(a: &Version, b: &Version) -> Result<i8, String> {
    match a.compare_version(b) {
        CompOp::Lt => Ok(-1),
        CompOp::Eq => Ok(0),
        CompOp::Gt => Ok(1),
        o => Err(format!("comparing {:?} and {:?} gives {:?}, not less/equal/greater", a.as_str(), b.as_str(), o)),
    }
}

pub fn word(x: i8) -> &'static str {
    match x {
        -1 => "less than",
        0 => "equal to",
        _ => "greater than",
    }
}

pub fn ord8(o: std::cmp::Ordering) -> i8 {
    o as i8
}

pub fn vspec(t: &str) -> Result<VersionSpec, String> {
    VersionSpec::try_from(t).map_err(|e| format!("{:?}", e))
}

pub fn vsoct(t: &str) -> Result<VersionSpecOrConstraintTree, String> {
    VersionSpecOrConstraintTree::try_from(t).map_err(|e| format!("{:?}", e))
}

pub fn tree(t: &str) -> Result<ConstraintTree, String> {
    treeify(t)
}

pub fn list(xs: Vec<&str>) -> Result<ConstraintTree, String> {
    ConstraintTree::try_from(xs).map_err(|e| format!("{:?}", e))
}

pub fn accepts<S: Spec>(c: &S, v: &Version) -> bool {
    c.test_match_version(v)
}

pub fn toks(t: &str) -> Result<Vec<model::Tok>, String> {
    model::parse(t).ok_or_else(|| format!("HARNESS: the model refuses {:?}", t))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => {
        if !$c {
            return Err(format!($($a)+));
        }
    };
}
