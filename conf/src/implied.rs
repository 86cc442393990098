//! Replays Implied.tla (P22): solving for the volatility that gives a price.

use crate::calendars::make_calendar;
use crate::curves::read;
use crate::markets::*;
use crate::reports::time_bump;
use crate::risk::{bits, make_bump, make_portfolio, Got};
use crate::util::*;
use quantmath::data::bump::Bump;
use quantmath::data::bumpvol::BumpVol;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::Pricer;
use quantmath::solvers::impliedvol::ImpliedVol;
use quantmath::solvers::OneDimensionalSolver;
use serde_json::Value;
use std::collections::HashMap;

fn said<T>(x: Result<T, quantmath::core::qm::Error>) -> Result<T, String> { x.map_err(|e| e.to_string()) }

/// What the holdings come to, the unknown volatility being as given, and whether they surely can be valued.
fn total(defs: &Value, worths: &Value, vol: f64) -> Option<f64> { valued(defs, worths, vol).map(|x| x.0) }
fn valued(defs: &Value, worths: &Value, vol: f64) -> Option<(f64, bool)> {
    let (mut sum, mut sure) = (0.0, true);
    for p in arr(worths) {
        let answers: Vec<_> = arr(&p["r"]).iter().map(|x| answer_after(vec![("implied", vol)], defs, x)).collect();
        if answers.is_empty() || answers.iter().any(|a| a.0 == Some(false) || !approx(a.1, answers[0].1, 1e-13, 1.0)) { return None }
        sure &= answers.iter().all(|a| a.0 == Some(true));
        sum += answers[0].1 * i(&p["x"]) as f64 / 100.0;
    }
    Some((sum, sure))
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(n, c)| make_calendar(c, &format!("C{}", n + 1))).collect();
    let markets: Vec<_> = arr(&w["markets"]).iter().map(|m| (make_market(m, &cals).unwrap_or_else(|e| fatal(&e.to_string())), make_instruments(&m["insts"]))).collect();
    let mut alldefs: HashMap<i64, Value> = HashMap::new();
    // the surfaces there are, and the target, by history
    let mut earlier: HashMap<String, (Vec<String>, Option<f64>)> = HashMap::new();
    each_line(&ins[1], |mut v| {
        let wi = i(&v["w"]) as usize - 1;
        let mk = &w["markets"][wi];
        let (market, list) = &markets[wi];
        let defs = v["defs"].take();
        let hist = arr(&v["hist"]).clone();
        let key = |n: usize| format!("{} {:?}", wi, &hist[..n]);
        let problem = v["problem"].take();
        if hist.is_empty() { alldefs.insert(i(&v["w"]), defs); }
        let defs = &alldefs[&i(&v["w"])];
        let mut found = f64::NAN;
        let port = make_portfolio(mk, list);
        let scale: f64 = 200.0 * port.iter().map(|p| p.0.abs()).sum::<f64>();
        let mut pricer: Box<dyn Pricer> = match said(SelfPricer::new(port, market)) { Ok(p) => Box::new(p), Err(e) => { r.fail("pricer", &v, e); return } };
        r.cases += 1;
        if r.cases % 197 == 77 { r.sample(v.clone()); }
        let mut target = None;
        if let Some(p) = arr(&problem).get(0) {
            let t = &mk["tasks"][i(&hist.last().unwrap()["i"]) as usize - 1];
            target = total(defs, &p["goal"], f64::NAN).map(|g| g + i(&t["off"]) as f64 / 100.0);
        }
        earlier.insert(key(hist.len()), (arr(&v["ids"]).iter().map(|x| s(x).to_string()).collect(), target));
        if hist.last().map_or(true, |h| h["a"] != "solve") { return }
        r.nontrivial += 1;
        for (n, h) in hist.iter().enumerate() {
            let at = i(&h["i"]) as usize - 1;
            let last = n + 1 == hist.len();
            match s(&h["a"]) {
                "bump" => {
                    let b = make_bump(&mk["bumps"][at]);
                    if let x @ (Err(_) | Ok(Err(_))) = guarded(|| said(pricer.as_mut_bumpable().bump(&b, None))) { r.fail("bump", &v, format!("{:?}", x)); return }
                }
                "advance" => {
                    let b = time_bump(pricer.as_bumpable().context().spot_date(), &mk["moves"][at]);
                    if let Err(_) | Ok(Err(_)) = guarded(|| said(pricer.as_mut_time_bumpable().bump_time(&b))) { return }
                }
                _ => {
                    let t = &mk["tasks"][at];
                    let (ids, target) = match earlier.get(&key(n + 1)) { Some(x) => (&x.0, x.1), None => fatal("a history without its beginning") };
                    let target = match (ids.len(), target) { (1, Some(x)) => x, (1, None) => { r.count("unsettled"); return } _ => 1.0 };
                    let (lo, hi, tol) = (i(&t["lo"]) as f64 / 1e4, i(&t["hi"]) as f64 / 1e4, 10f64.powi(-(i(&t["tol"]) as i32)));
                    let before: Got = guarded(|| said(pricer.price()));
                    let got = guarded(|| said(ImpliedVol::new(tol, i(&t["iter"]) as u32).solve(&mut *pricer, target, lo, hi)));
                    if ids.len() != 1 {
                        if last {
                            r.count("refused");
                            let after: Got = guarded(|| said(pricer.price()));
                            r.check(matches!(got, Ok(Err(_))) && bits(&before) == bits(&after), "ambiguous", &v,
                                || format!("surfaces {:?}: {:?}; worth {:?} before, {:?} after", ids, got, before, after));
                        }
                        continue
                    }
                    if last { found = judge(&mut r, &v, defs, &problem[0], t, target, (lo, hi, tol), scale, &got); }
                    let vol = match got { Ok(Ok(x)) => x, _ => return };
                    // the pricer may have been left at any volatility that was tried
                    let b = Bump::new_vol(&ids[0], BumpVol::new_replace(vol));
                    if let x @ (Err(_) | Ok(Err(_))) = guarded(|| said(pricer.as_mut_bumpable().bump(&b, None))) { r.fail("bump", &v, format!("{:?}", x)); return }
                    if last && !found.is_nan() {
                        let after: Got = guarded(|| said(pricer.price()));
                        let want = total(defs, &problem[0]["at"], found);
                        if let Some(want) = want {
                            r.check(matches!(after, Ok(Ok(x)) if (x - want).abs() <= 1e-9 * scale), "repriced", &v, || format!("worth {:?} at {:?}, specification {:?}", after, found, want));
                        }
                    }
                }
            }
        }
    });
    r
}

/// Judges one answer; what was found, if anything.
fn judge(r: &mut Report, v: &Value, defs: &Value, p: &Value, t: &Value, target: f64, (lo, hi, tol): (f64, f64, f64), scale: f64, got: &Got) -> f64 {
    let g = |x: f64| total(defs, &p["at"], x).map(|w| w - target);
    let (a, b) = match (total(defs, &p["lo"], f64::NAN), total(defs, &p["hi"], f64::NAN)) { (Some(a), Some(b)) => (a - target, b - target), _ => { r.count("unsettled"); return f64::NAN } };
    let noise = 1e-9 * scale;
    if let Err(e) = got { r.fail("panic", v, e.clone()); return f64::NAN }
    if a.abs() > noise && b.abs() > noise && a.signum() == b.signum() {
        r.count("same-sign");
        r.check(matches!(got, Ok(Err(_))), "same-sign", v, || format!("{:?} though the price stays on one side of {:?} ({:?} and {:?})", got, target, a, b));
        return f64::NAN
    }
    match got {
        Ok(Ok(x)) => {
            r.count("solved");
            let near = tol + 1e-12;
            let (u, w) = (g((x - near).max(lo)), g((x + near).min(hi)));
            let ok = *x >= lo && *x <= hi && match (u, w, g(*x)) { (Some(u), Some(w), Some(z)) => u.min(w) <= noise && u.max(w) >= -noise || z.abs() <= noise, _ => true };
            r.check(ok, "implied", v, || format!("{:?} in [{:?}, {:?}]: misses {:?} by {:?}, {:?} below and {:?} above", x, lo, hi, target, g(*x), u, w));
            *x
        }
        _ => {
            r.count("unsolved");
            let sure = |x: f64| valued(defs, &p["at"], x).map_or(false, |w| w.1);
            let clear = (0..=10).all(|k| sure(lo + (hi - lo) * k as f64 / 10.0));
            if clear { r.count("unsolved-clear"); }
            r.check(i(&t["iter"]) < 3000 || !clear || a.abs() <= noise || b.abs() <= noise, "gave-up", v, || format!("{:?}, though {:?} and {:?} have different signs", got, a, b));
            f64::NAN
        }
    }
}
