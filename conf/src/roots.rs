//! Runs the root finder on the problems of RootFun.tla (and smooth ones), judges the answers and
//! records what was evaluated for RootTrace.tla (P22).

use crate::util::*;
use quantmath::core::qm;
use quantmath::math::brent::zbrent;
use serde_json::{json, Value};
use std::io::Write;

struct Run<'a> { f: &'a dyn Fn(f64) -> f64, x1: f64, x2: f64, tol: f64, budget: u32, fault: usize }

/// what: description for reports. Returns the root if there was one.
fn run(r: &mut Report, case: &Value, p: Run, out: &mut Vec<u8>, record: bool) -> Option<f64> {
    let mut evals: Vec<(f64, i64)> = vec![];
    let got = guarded(|| zbrent(p.x1, p.x2, p.tol, p.budget, &mut |x| {
        if p.fault > 0 && evals.len() + 1 == p.fault {
            evals.push((x, 2));
            return Err(qm::Error::new("injected failure"));
        }
        let y = (p.f)(x);
        evals.push((x, if y > 0.0 { 1 } else if y < 0.0 { -1 } else { 0 }));
        Ok(y)
    }));
    let got = match got { Ok(g) => g, Err(x) => { r.fail("panic", case, x); return None } };
    let (lo, hi) = (p.x1.min(p.x2), p.x1.max(p.x2));
    for (x, _) in &evals {
        r.check(*x >= lo && *x <= hi, "outside", case, || format!("evaluated at {} outside [{}, {}]", x, lo, hi));
    }
    if let Ok(x) = got {
        let t = p.tol + 4.0 * std::f64::EPSILON * x.abs();
        let (a, b) = ((x - t).max(lo), (x + t).min(hi));
        let (fa, fx, fb) = ((p.f)(a), (p.f)(x), (p.f)(b));
        r.check(x >= lo && x <= hi, "root-inside", case, || format!("root {}", x));
        r.check(fx == 0.0 || fa * fx <= 0.0 || fx * fb <= 0.0, "no-sign-change", case,
            || format!("root {}: values {} {} {} at {} {} {}", x, fa, fx, fb, a, x, b));
    }
    if let Err(e) = &got {
        if p.fault > 0 && evals.len() == p.fault {
            r.check(e.to_string().contains("injected failure"), "error-passed-on", case, || e.to_string());
        }
    }
    if record {
        let mut xs: Vec<f64> = evals.iter().map(|e| e.0).chain([lo, hi]).collect();
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        xs.dedup();
        let rank = |x: f64| xs.iter().position(|y| *y == x).map_or(-1, |n| n as i64);
        writeln!(out, "{}", json!({"op": "start", "lo": rank(lo), "hi": rank(hi), "budget": p.budget, "enough": p.budget >= 3000})).unwrap();
        for (x, sg) in &evals { writeln!(out, "{}", json!({"op": "eval", "x": rank(*x), "s": sg})).unwrap(); }
        match got {
            Ok(x) => {
                let t = (p.tol + 4.0 * std::f64::EPSILON * x.abs()) * 1.000001;
                let near: Vec<i64> = xs.iter().enumerate().filter(|(_, y)| (**y - x).abs() <= t).map(|(n, _)| n as i64).collect();
                writeln!(out, "{}", json!({"op": "root", "x": rank(x), "near_lo": near.first().unwrap_or(&0), "near_hi": near.last().unwrap_or(&-1)})).unwrap();
            }
            Err(_) => writeln!(out, "{}", json!({"op": "fail"})).unwrap(),
        }
    }
    got.ok()
}

/// ins: problems, trace to write
pub fn solve(ins: &[String], seed: u64, thorough: bool) -> Report {
    let mut r = Report::new();
    let mut out: Vec<u8> = vec![];
    let mut rng = Rng::new(seed ^ 0x51);
    each_line(&ins[0], |v| {
        r.cases += 1;
        let ys: Vec<f64> = arr(&v["ys"]).iter().map(|y| i(y) as f64).collect();
        let (a, h) = if v["shape"] == "wide" { (-1234.5, 1.0e6) } else { (0.25, 1.0 / 7.0) };
        let f = |x: f64| {
            let t = ((x - a) / h).max(0.0).min(4.0);
            let n = (t.floor() as usize).min(3);
            let u = t - n as f64;
            if u == 0.0 { ys[n] } else { ys[n] * (1.0 - u) + ys[n + 1] * u }
        };
        let (mut x1, mut x2) = (a, a + 4.0 * h);
        if i(&v["dir"]) < 0 { std::mem::swap(&mut x1, &mut x2); }
        let bracketed = f(x1) * f(x2) <= 0.0;
        if bracketed { r.nontrivial += 1; }
        if r.cases % 997 == 7 { r.sample(v.clone()); }
        let tol = [1e-10, 1e-4, 1e-13][(r.cases % 3) as usize] * h;
        let record = thorough || rng.below(5) == 0 || i(&v["budget"]) < 3000 || i(&v["fault"]) > 0;
        let p = Run { f: &f, x1, x2, tol, budget: i(&v["budget"]) as u32, fault: i(&v["fault"]) as usize };
        let got = run(&mut r, &v, p, &mut out, record);
        if i(&v["budget"]) >= 3000 && i(&v["fault"]) == 0 {
            r.check(got.is_some() == bracketed, "solved", &v, || format!("{:?}", got));
        }
    });
    // smooth and awkward functions with a known root
    for n in 0..if thorough { 20000 } else { 1500 } {
        r.cases += 1;
        let root = rng.unit() * 2.0 - 1.0;
        let (lo, hi) = (root - 0.01 - rng.unit() * 10.0, root + 0.01 + rng.unit() * 10.0);
        let k = rng.range(0, 6);
        let steep = 10f64.powi(rng.range(-3, 4) as i32);
        let f = move |x: f64| match k {
            0 => steep * (x - root),
            1 => steep * (x - root).powi(3),
            2 => (steep * (x - root)).tanh(),
            3 => (x - root).powi(9),
            4 => (x - root) * ((x * 5.0).sin().abs() + 0.001),
            5 => x.exp() - root.exp(),
            _ => if x < root { (x - root) * 1e-6 } else { (x - root) * 1e6 },
        };
        let case = json!({"smooth": k, "root": root, "lo": lo, "hi": hi, "steep": steep});
        let (x1, x2) = if n % 2 == 0 { (lo, hi) } else { (hi, lo) };
        let tol = 10f64.powi(-(rng.range(3, 13) as i32));
        let got = run(&mut r, &case, Run { f: &f, x1, x2, tol, budget: 3000, fault: 0 }, &mut out, n < 200);
        r.check(got.is_some(), "solved", &case, || "no root found".into());
        r.nontrivial += 1;
    }
    std::fs::write(&ins[1], out).unwrap();
    r
}
