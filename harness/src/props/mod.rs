//! One module per group of properties.
#![allow(deprecated)]

use crate::fw::*;
use bellframe::IncompatibleStages;

pub mod bell_stage;
pub mod block;
pub mod invariants;
pub mod iters;
pub mod library;
pub mod masks;
pub mod methods;
pub mod parsers;
pub mod place_not;
pub mod pn_block;
pub mod regex;
pub mod row_arith;
pub mod row_forms;
pub mod row_build;
pub mod row_groups;
pub mod row_obs;
pub mod serial;
pub mod ssv;

pub fn all() -> Vec<Prop> {
    vec![
        invariants::c01(),
        row_build::c02(),
        row_arith::c03(),
        row_obs::c04(),
        row_groups::c05(),
        bell_stage::c06(),
        place_not::c07(),
        place_not::c08(),
        pn_block::c09(),
        pn_block::c10(),
        ssv::c11(),
        block::c12(),
        block::c13(),
        methods::c14(),
        methods::c15(),
        methods::c16(),
        library::c17(),
        library::c18(),
        regex::c19(),
        regex::c20(),
        regex::c21(),
        masks::c22(),
        serial::c23(),
        row_forms::c24(),
        row_forms::c25(),
        iters::c26(),
        parsers::c27(),
    ]
}

pub fn ist(a: usize, b: usize) -> IncompatibleStages {
    IncompatibleStages::test_err(bellframe::Stage::new(a), bellframe::Stage::new(b)).expect_err("stages differ")
}

/// A stage mismatch between `a` and `b`, in whichever order the implementation names them
pub fn check_ist(e: &IncompatibleStages, a: usize, b: usize, what: &str) -> Result<(), String> {
    if *e == ist(a, b) || *e == ist(b, a) {
        Ok(())
    } else {
        Err(format!("{what}: mismatch of stages {a} and {b} reported as {e}"))
    }
}

/// `r` must be a refusal naming the stages `a` and `b`
pub fn refused<T>(r: Result<T, IncompatibleStages>, a: usize, b: usize, what: &str) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{what}: stages {a} and {b} were accepted")),
        Err(e) => check_ist(&e, a, b, what),
    }
}

/// Every way of copying a value: `clone`, and `clone_from` into each of the old values
pub fn copies<T: Clone>(x: &T, olds: impl IntoIterator<Item = T>, check: impl Fn(&T) -> Result<(), String>) -> Result<(), String> {
    check(&x.clone()).map_err(|e| format!("clone: {e}"))?;
    check(x).map_err(|e| format!("after cloning it: {e}"))?;
    for (i, mut old) in olds.into_iter().enumerate() {
        old.clone_from(x);
        check(&old).map_err(|e| format!("clone_from into old value {i}: {e}"))?;
        check(x).map_err(|e| format!("after cloning it into old value {i}: {e}"))?;
        // ... and once more into what is now a copy
        old.clone_from(x);
        check(&old).map_err(|e| format!("clone_from into a copy, old value {i}: {e}"))?;
    }
    Ok(())
}

/// `==` and `!=`, both ways round, and what follows for the hash
pub fn check_eq<T: PartialEq>(a: &T, b: &T, want: bool) -> Result<(), String> {
    #[allow(clippy::nonminimal_bool)]
    let got = (*a == *b, *b == *a, !(*a != *b), !(*b != *a));
    if got == (want, want, want, want) {
        Ok(())
    } else {
        Err(format!("==, == swapped, not !=, not != swapped: {got:?}, expected {want}"))
    }
}

/// Every provided method of `Ord` and `PartialOrd` must follow `cmp`
pub fn check_ord<T: Ord + Clone>(a: &T, b: &T, want: std::cmp::Ordering) -> Result<(), String> {
    let got = (a.cmp(b), a.partial_cmp(b), b.cmp(a), b.partial_cmp(a));
    if got != (want, Some(want), want.reverse(), Some(want.reverse())) {
        return Err(format!("cmp, partial_cmp, and both swapped: {got:?}, expected {want:?}"));
    }
    let got = (a < b, a <= b, a > b, a >= b);
    if got != (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()) {
        return Err(format!("<, <=, >, >=: {got:?} for {want:?}"));
    }
    let (min, max) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
    let (lo, hi) = if want.is_gt() { (b, a) } else { (a, b) };
    if min.cmp(lo).is_ne() || max.cmp(hi).is_ne() {
        return Err("min or max gives the other value".to_string());
    }
    let c = a.clone().clamp(lo.clone(), hi.clone());
    let d = b.clone().clamp(a.clone().min(a.clone()), a.clone());
    if c.cmp(a).is_ne() || d.cmp(a).is_ne() {
        return Err("clamp gives another value".to_string());
    }
    check_eq(a, b, want.is_eq())
}
