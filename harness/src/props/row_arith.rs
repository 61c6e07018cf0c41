//! C03: row arithmetic is exactly the permutation group, in every variant

use super::*;
use crate::model::*;
use bellframe::{row::MulIntoError, Row, RowBuf};
use serde_json::json;

/// Every way of multiplying two rows of one stage, whatever the outputs held before
fn mul_all(a: &Perm, b: &Perm, o: &mut Obs) -> Result<(), String> {
    let n = a.len();
    let (ra, rb) = (row(a), row(b));
    let (sa, sb): (&Row, &Row) = (&ra, &rb);
    let exp = mul(a, b);
    let e = row(&exp);
    eq!(sa.mul_result(sb).as_ref(), Ok(&e), "mul_result");
    eq!(&ra * &rb, e, "RowBuf * RowBuf");
    eq!(&ra * sb, e, "RowBuf * Row");
    eq!(sa * &rb, e, "Row * RowBuf");
    eq!(sa * sb, e, "Row * Row");
    eq!(unsafe { sa.mul_unchecked(sb) }, e, "mul_unchecked");
    for prior in [1, n.saturating_sub(1).max(1), n, n + 1, n + 4] {
        let mut out = RowBuf::backrounds(stage(prior));
        eq!(sa.mul_into(sb, &mut out).is_ok(), true, "mul_into result (out had stage {prior})");
        eq!(perm(&out), exp, "mul_into (out had stage {prior})");
        let mut out = RowBuf::queens(stage(prior));
        unsafe { sa.mul_into_unchecked(sb, &mut out) };
        eq!(perm(&out), exp, "mul_into_unchecked (out had stage {prior})");
    }
    for prior in [RowBuf::rounds(stage(n)), ra.clone(), rb.clone()] {
        let mut out = prior.clone();
        ensure!(sa.mul_into_row(sb, &mut out).is_ok(), "mul_into_row refused equal stages");
        eq!(perm(&out), exp, "mul_into_row over {prior}");
        let mut out = prior.clone();
        unsafe { sa.mul_into_row_unchecked(sb, &mut out) };
        eq!(perm(&out), exp, "mul_into_row_unchecked over {prior}");
    }
    eq!(perm(&ra), *a, "left operand after multiplying");
    eq!(perm(&rb), *b, "right operand after multiplying");
    o.step(20);
    o.see(&exp);
    o.see(a);
    solvers(a, b, o)
}

fn solvers(a: &Perm, b: &Perm, o: &mut Obs) -> Result<(), String> {
    let (ra, rb) = (row(a), row(b));
    let ax = row(&mul(&inv(a), b));
    let xa = row(&solve_xa(a, b));
    eq!(Row::solve_ax_equals_b(&ra, &rb), Ok(ax.clone()), "solve_ax_equals_b");
    eq!(Row::solve_xa_equals_b(&ra, &rb), Ok(xa.clone()), "solve_xa_equals_b");
    eq!(ra.tranposition_to(&rb), Ok(xa.clone()), "tranposition_to");
    eq!(unsafe { ra.tranposition_to_unchecked(&rb) }, xa, "tranposition_to_unchecked");
    o.step(4);
    Ok(())
}

fn inverses(a: &Perm, o: &mut Obs) -> Result<(), String> {
    let n = a.len();
    let ra = row(a);
    let sa: &Row = &ra;
    let exp = inv(a);
    let e = row(&exp);
    eq!(sa.inv(), e, "inv");
    eq!(!&ra, e, "!RowBuf");
    eq!(!sa, e, "!Row");
    for prior in [identity(n), a.clone(), exp.clone(), identity(n).into_iter().rev().collect()] {
        let mut out = row(&prior);
        ensure!(sa.inv_into(&mut out).is_ok(), "inv_into refused equal stages");
        eq!(perm(&out), exp, "inv_into over {prior:?}");
    }
    for prior in [1, 2, 3, n.saturating_sub(2).max(1), n.saturating_sub(1).max(1), n, n + 1, n + 2, 2 * n, 2 * n + 1, 3 * n + 2] {
        let mut out = RowBuf::backrounds(stage(prior));
        sa.inv_into_buf(&mut out);
        eq!(perm(&out), exp, "inv_into_buf (out had stage {prior})");
    }
    let rounds = row(&identity(n));
    eq!(sa * &e, rounds, "row times inverse");
    eq!(&e * sa, rounds, "inverse times row");
    o.step(18);
    o.see(&exp);
    Ok(())
}

fn powers(a: &Perm, exps: &[i64], o: &mut Obs) -> Result<(), String> {
    let ra = row(a);
    for &e in exps {
        let want = row(&pow(a, e));
        eq!(ra.pow_i(e as isize), want, "pow_i({e}) of {a:?}");
        if e >= 0 {
            eq!(ra.pow_u(e as usize), want, "pow_u({e}) of {a:?}");
        }
        o.step(2);
        o.see(&(a, e, perm(&want)));
    }
    Ok(())
}

fn check_mul_into(e: MulIntoError, a: usize, b: usize, out: usize) -> Result<(), String> {
    let _ = format!("{e} {e:?}");
    match e {
        MulIntoError::RhsStage(e) if a != b => check_ist(&e, a, b, "mul_into_row"),
        MulIntoError::IntoStage(e) if a != out => check_ist(&e, a, out, "mul_into_row"),
        other => Err(format!("mul_into_row with stages {a}, {b} into {out} reported {other}")),
    }
}

fn mismatch(a: &Perm, b: &Perm, o: &mut Obs) -> Result<(), String> {
    let (n, m) = (a.len(), b.len());
    let (ra, rb) = (row(a), row(b));
    let (sa, sb): (&Row, &Row) = (&ra, &rb);
    refused(sa.mul_result(sb), n, m, "mul_result")?;
    refused(Row::solve_ax_equals_b(sa, sb), n, m, "solve_ax_equals_b")?;
    refused(Row::solve_xa_equals_b(sa, sb), n, m, "solve_xa_equals_b")?;
    refused(sa.tranposition_to(sb), n, m, "tranposition_to")?;
    ensure!(panics(|| &ra * &rb), "RowBuf * RowBuf accepted stages {n} and {m}");
    ensure!(panics(|| &ra * sb), "RowBuf * Row accepted stages {n} and {m}");
    ensure!(panics(|| sa * &rb), "Row * RowBuf accepted stages {n} and {m}");
    ensure!(panics(|| sa * sb), "Row * Row accepted stages {n} and {m}");
    for k in [1, n, m, n + m] {
        let prior = RowBuf::queens(stage(k));
        let mut out = prior.clone();
        refused(sa.mul_into(sb, &mut out), n, m, "mul_into")?;
        eq!(out, prior, "output of refused mul_into");
        let mut out = prior.clone();
        match sa.mul_into_row(sb, &mut out) {
            Ok(()) => return Err(format!("mul_into_row accepted stages {n}, {m}")),
            Err(e) => check_mul_into(e, n, m, k)?,
        }
        eq!(out, prior, "output of refused mul_into_row");
    }
    // Right operand fits, but the output doesn't
    let mut out = rb.clone();
    match sa.mul_into_row(&row(&inv(a)), &mut out) {
        Ok(()) => return Err(format!("mul_into_row accepted writing stage {n} into {m}")),
        Err(e) => check_mul_into(e, n, n, m)?,
    }
    eq!(out, rb, "output of refused mul_into_row");
    let mut out = rb.clone();
    refused(sa.inv_into(&mut out), n, m, "inv_into")?;
    eq!(out, rb, "output of refused inv_into");
    o.step(18);
    o.see(&(n, m));
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "A case is a pair of rows (products, solvers), a row (inverse), a row with exponents (powers) or a pair \
               of rows of unequal stages; every variant of the operation is run and compared with arithmetic on plain \
               index vectors.  Distinct by operands and result.",
        bounds: |t| {
            json!({"all_pairs_every_variant_up_to_stage": t.pick(5, 6), "all_pairs_product_and_solvers_up_to_stage": t.pick(6, 7),
                "all_inverses_up_to_stage": t.pick(7, 9), "exponents_all_rows_up_to_stage_6": [-13, 13],
                "large_exponents": [63, 64, 65, 127, 128, 255, 256, 1000, 65535, 65536, 65537, 100000],
                "wide_stages": wide_stages(t.thorough())})
        },
        assumptions: &["the exponent isize::MIN is excluded (its magnitude is not representable)"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(5, 6);
            split_unit(&mut u, "pairs", 16, move |c, part| {
                for n in 1..=max {
                    let ps = all_perms(n);
                    for a in &ps {
                        if !part.mine() {
                            continue;
                        }
                        for b in &ps {
                            c.case(|| format!("a={a:?} b={b:?}"), |o| mul_all(a, b, o));
                        }
                    }
                }
            });
            let (lo, hi) = t.pick((6, 6), (7, 7));
            split_unit(&mut u, "pairs-product", 16, move |c, part| {
                for n in lo..=hi {
                    let ps = all_perms(n);
                    let rows: Vec<RowBuf> = ps.iter().map(|p| row(p)).collect();
                    for (a, ra) in ps.iter().zip(&rows) {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("a={a:?}, every b"), |o| {
                            let mut out = RowBuf::rounds(stage(1));
                            for (b, rb) in ps.iter().zip(&rows) {
                                let exp = mul(a, b);
                                ra.mul_into(rb, &mut out).map_err(|e| e.to_string())?;
                                eq!(perm(&out), exp, "mul_into a={a:?} b={b:?}");
                                eq!(perm(&(ra.as_row() * rb)), exp, "a={a:?} * b={b:?}");
                                if n <= 6 {
                                    solvers(a, b, o)?;
                                }
                                o.step(2);
                            }
                            o.see(a);
                            Ok(())
                        });
                    }
                }
            });
            let max = t.pick(7, 9);
            split_unit(&mut u, "inverses", 8, move |c, part| {
                for n in 1..=max {
                    for a in all_perms(n) {
                        if part.mine() {
                            c.case(|| format!("a={a:?}"), |o| inverses(&a, o));
                        }
                    }
                }
            });
            let max = t.pick(6, 7);
            split_unit(&mut u, "powers", 8, move |c, part| {
                let exps: Vec<i64> = (-13..=13).collect();
                for n in 1..=max {
                    for a in all_perms(n) {
                        if part.mine() {
                            c.case(|| format!("powers of {a:?}"), |o| powers(&a, &exps, o));
                        }
                    }
                }
            });
            split_unit(&mut u, "large-powers", 8, move |c, part| {
                for n in [1, 2, 3, 4, 5, 7, 8, 12, 33, 65] {
                    for a in small_family(n) {
                        for m in [63i64, 64, 65, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 100_000] {
                            if part.mine() && (m <= 1000 || n <= 12) {
                                c.case(|| format!("powers +-{m} of {a:?}"), |o| powers(&a, &[m, -m], o));
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "mismatch", 8, move |c, part| {
                for n in 1..=5 {
                    for m in 1..=5 {
                        if n == m {
                            continue;
                        }
                        let (pa, pb) = (all_perms(n), all_perms(m));
                        // all rows of the smaller, a family of the larger
                        let (fa, fb) = if n < m { (pa, small_family(m)) } else { (small_family(n), pb) };
                        for a in &fa {
                            for b in &fb {
                                if part.mine() {
                                    c.case(|| format!("a={a:?} b={b:?}"), |o| mismatch(a, b, o));
                                }
                            }
                        }
                    }
                }
                for n in wide_stages(false) {
                    for m in [1, n - 1, n + 1, n + 2, n + 8, 2 * n, n + 64, n + 128, n + 256] {
                        if m == 0 || m == n || !part.mine() {
                            continue;
                        }
                        let (a, b) = (family(n).pop().unwrap(), family(m).pop().unwrap());
                        c.case(|| format!("a={a:?} b={b:?}"), |o| mismatch(&a, &b, o));
                    }
                }
            });
            let thorough = t.thorough();
            split_unit(&mut u, "wide", 24, move |c, part| {
                for n in wide_stages(thorough) {
                    let f = family(n);
                    let s = small_family(n);
                    for a in &f {
                        if !part.mine() {
                            continue;
                        }
                        c.case(|| format!("a={a:?}"), |o| {
                            inverses(a, o)?;
                            powers(a, &[-3, -2, -1, 0, 1, 2, 3, 5, 17], o)
                        });
                        for b in s.iter().take(if n > 150 { 6 } else { 24 }) {
                            c.case(|| format!("a={a:?} b={b:?}"), |o| mul_all(a, b, o));
                        }
                    }
                }
            });
            u
        },
    }
}
