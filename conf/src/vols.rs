//! Replays VolSurface.tla (P14).

use crate::calendars::{day, make_calendar};
use crate::curves::read;
use crate::interp::extrap;
use crate::term::{eval_in, eval_with};
use crate::util::*;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::forward::{DriftlessForward, Forward};
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::calendar::RcCalendar;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::math::interpolation::Linear;
use serde_json::Value;
use std::sync::Arc;

/// A day and a fraction of it in twentieths.
pub fn moment(d: &Value, f: &Value) -> DateDayFraction {
    DateDayFraction::new(day(d), i(f) as f64 / 20.0)
}

fn line(v: &Value) -> Linear<Date> {
    let pts: Vec<_> = arr(&v["x"]).iter().zip(arr(&v["y"])).map(|(x, y)| (day(x), i(y) as f64 / 100.0)).collect();
    Linear::new(&pts, extrap(&v["left"]), extrap(&v["right"])).unwrap_or_else(|_| fatal("line"))
}

pub fn make_surface(v: &Value, cals: &[RcCalendar]) -> Result<RcVolSurface, qm::Error> {
    let cal = cals[i(&v["cal"]) as usize - 1].clone();
    let base = moment(&v["base"], &v["bf"]);
    if v["kind"] == "flat" {
        return Ok(Qrc::new(Arc::new(FlatVolSurface::new(i(&v["vol"]) as f64 / 10000.0, cal, base))));
    }
    let assume = match s(&v["assume"]) {
        "NoCashDivs" => DivAssumptions::NoCashDivs,
        "IndependentLogNormals" => DivAssumptions::IndependentLogNormals,
        "FixedDivs" => DivAssumptions::FixedDivs,
        _ => DivAssumptions::JumpDivs,
    };
    let (fwd, divs) = (line(&v["fwd"]), line(&v["divs"]));
    let ps = arr(&v["pillars"]);
    let bp = |y: &Value| i(y) as f64 / 10000.0;
    if !ps.is_empty() && ps.iter().all(|p| arr(&p["x"]).is_empty()) {
        let smiles: Vec<_> = ps.iter().map(|p| (moment(&p["d"], &p["f"]), FlatSmile::new(bp(&p["y"][0])).ok().unwrap())).collect();
        Ok(Qrc::new(Arc::new(VolByProbabilityFlatSmile::new(&smiles, cal, base, fwd, divs, assume)?)))
    } else {
        let smiles: Vec<_> = ps.iter().map(|p| {
            let pts: Vec<_> = arr(&p["x"]).iter().zip(arr(&p["y"])).map(|(x, y)| (i(x) as f64 / 100.0, bp(y))).collect();
            (moment(&p["d"], &p["f"]), CubicSplineSmile::new(&pts).unwrap_or_else(|_| fatal("smile")))
        }).collect();
        Ok(Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile::new(&smiles, cal, base, fwd, divs, assume)?)))
    }
}

/// By the bump and dynamics objects (as market data and pricing contexts do).
pub fn operate(sf: RcVolSurface, o: &Value, start: Date) -> Result<RcVolSurface, qm::Error> {
    let x = i(&o["n"]) as f64 / 10000.0;
    let mut sf = sf;
    match s(&o["o"]) {
        "par" => Ok(BumpVol::new_flat_additive(x).apply(sf)),
        "ts" => Ok(BumpVol::new_time_scaled(x, i(&o["m"]) as f64 / 100.0).apply(sf)),
        "rep" => Ok(BumpVol::new_replace(x).apply(sf)),
        "ce" => VolTimeDynamics::ConstantExpiry.modify(&mut sf, start + i(&o["n"]) as i32).map(|_| sf),
        "re" => VolTimeDynamics::RollingExpiry.modify(&mut sf, start + i(&o["n"]) as i32).map(|_| sf),
        "sd" => {
            let f = i(&o["n"]) as f64 / 100.0;
            VolForwardDynamics::StickyDelta.modify(&mut sf, &move || -> Result<Arc<dyn Forward>, qm::Error> { Ok(Arc::new(DriftlessForward::new(f))) }).map(|_| sf)
        }
        k => fatal(k),
    }
}

/// By the decorators themselves.
fn decorate(sf: RcVolSurface, o: &Value, start: Date) -> Result<RcVolSurface, qm::Error> {
    let x = i(&o["n"]) as f64 / 10000.0;
    let target = DateDayFraction::new(start + i(&o["n"]) as i32, 0.0);
    Ok(match s(&o["o"]) {
        "par" => Qrc::new(Arc::new(ParallelBumpVol::new(sf, x))),
        "ts" => Qrc::new(Arc::new(TimeScaledBumpVol::new(sf, x, i(&o["m"]) as f64 / 100.0))),
        "rep" => Qrc::new(Arc::new(FlatVolSurface::new(x, sf.calendar().clone(), sf.base_date()))),
        "ce" | "re" => {
            let gap = sf.calendar().year_fraction(sf.base_date(), target);
            if target.date() == sf.base_date().date() || gap == 0.0 { return Ok(sf) }
            if o["o"] == "ce" { Qrc::new(Arc::new(ConstantExpiryTimeEvolution::new(sf, gap, target))) }
            else { Qrc::new(Arc::new(RollingExpiryTimeEvolution::new(sf, gap, target))) }
        }
        _ => {
            if sf.forward().is_none() { return Ok(sf) }
            Qrc::new(Arc::new(StickyDeltaBumpVol::new(sf, Arc::new(DriftlessForward::new(i(&o["n"]) as f64 / 100.0)))))
        }
    })
}

/// Every condition a <= b holds / some fails / too close to call.
pub fn judge(defs: &Value, conds: &Value) -> Option<bool> {
    judge_in(defs, conds, &mut vec![])
}
pub fn judge_in<'a>(defs: &'a Value, conds: &'a Value, env: &mut Vec<(&'a str, f64)>) -> Option<bool> {
    let mut sure = true;
    for c in arr(conds) {
        let (a, b) = (eval_in(defs, &c[0], env), eval_in(defs, &c[1], env));
        if (a - b).abs() <= 1e-11 * a.abs().max(b.abs()).max(1e-4) { sure = false } else if !(a <= b) { return Some(false) }
    }
    if sure { Some(true) } else { None }
}

/// Whether an observed number or error is one of the allowed results.
pub fn allowed(defs: &Value, got: &Result<Result<f64, ()>, String>, results: &Value, value: impl Fn(&Value) -> f64) -> bool {
    arr(results).iter().any(|x| match (judge(defs, &x["c"]), got) {
        (_, Err(_)) => false,
        (Some(false), Ok(Err(()))) | (None, Ok(Err(()))) => true,
        (Some(true), Ok(Ok(g))) | (None, Ok(Ok(g))) => { let w = value(x); approx(*g, w, 1e-9, 1e-6) || (w.is_nan() && g.is_nan()) }
        _ => false,
    })
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(n, c)| make_calendar(c, &format!("C{}", n + 1))).collect();
    each_line(&ins[1], |mut v| {
        r.cases += 1;
        let (q, fv, cond, defs) = (v["q"].take(), v["v"].take(), v["cond"].take(), v["defs"].take());
        let eval = |t: &Value| eval_with(&defs, t);
        let world = &w["surfaces"][i(&v["s"]) as usize - 1];
        let stack = arr(&v["stack"]).clone();
        if !stack.is_empty() { r.nontrivial += 1; }
        if r.cases % 97 == 77 { r.sample(v.clone()); }
        let built = guarded(|| make_surface(world, &cals));
        let usable = if world["kind"] == "pillar" && arr(&world["pillars"]).is_empty() { Some(false) } else { judge(&defs, &cond) };
        let surface = match (built, usable) {
            (Ok(Ok(x)), Some(true)) | (Ok(Ok(x)), None) => x,
            (Ok(Err(_)), Some(false)) | (Ok(Err(_)), None) => { r.count("refused"); r.checks += 1; return }
            (b, u) => { r.fail("build", &v, format!("usable {:?}, library {:?}", u, b.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))); return }
        };
        let start = day(&world["base"]);
        let routes: Vec<(&str, Result<Result<RcVolSurface, qm::Error>, String>)> = vec![
            ("bumps", guarded(|| stack.iter().try_fold(surface.clone(), |x, o| operate(x, o, start)))),
            ("decorators", guarded(|| stack.iter().try_fold(surface.clone(), |x, o| decorate(x, o, start)))),
            ("json", guarded(|| {
                let x = stack.iter().filter(|o| o["o"] != "sd").try_fold(surface.clone(), |x, o| operate(x, o, start))?;
                let t = serde_json::to_string(&x).unwrap();
                let back: RcVolSurface = serde_json::from_str(&t).unwrap();
                let again: Value = serde_json::from_str(&serde_json::to_string(&back).unwrap()).unwrap();
                assert!(same_json(&again, &serde_json::from_str(&t).unwrap()), "{} became {}", t, again);
                Ok(back)
            })),
        ];
        for (route, x) in routes {
            if route == "json" && stack.iter().any(|o| o["o"] == "sd") { continue }
            let x = match x {
                Ok(Ok(x)) => x,
                e => { r.fail(&format!("operate-{}", route), &v, format!("{:?}", e.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))); continue }
            };
            let b = x.base_date();
            r.check(b == moment(&v["base"][0], &v["base"][1]), &format!("base-{}", route), &v, || format!("{:?}", b));
            r.check(x.forward().is_some() == (v["has"] == true), &format!("has-forward-{}", route), &v, || format!("{}", x.forward().is_some()));
            for k in arr(&q) {
                let at = moment(&k["d"], &k["f"]);
                let strike = i(&k["k"]) as f64 / 100.0;
                let got = guarded(|| {
                    let mut out = [f64::NAN];
                    x.volatilities(at, &[strike], &mut out).map(|t| (out[0], t)).map_err(|_| ())
                });
                let got_var = guarded(|| x.variance(at, strike).map_err(|_| ()));
                let got_t = guarded(|| x.vol_time(at).map_err(|_| ()));
                // several strikes at once
                let many = guarded(|| {
                    let mut out = [f64::NAN; 3];
                    x.variances(at, &[strike * 1.01, strike, strike * 0.99], &mut out).map(|_| out[1]).map_err(|_| ())
                });
                let what = |n: &str, g: String| format!("{} at {:?} strike {}: library {}, specification {}", n, at, strike, g,
                    arr(&k["r"]).iter().map(|x| format!("vol {} time {} ok {:?}; ", eval(&x["v"]), eval(&x["t"]), judge(&defs, &x["c"]))).collect::<String>());
                let vol = got.clone().map(|g| g.map(|g| g.0));
                r.check(allowed(&defs, &vol, &k["r"], |x| eval(&x["v"])), &format!("vol-{}", route), &v, || what("vol", format!("{:?}", vol)));
                r.check(allowed(&defs, &got_var, &k["r"], |x| eval(&x["t"]) * eval(&x["v"]) * eval(&x["v"])), &format!("variance-{}", route), &v,
                    || what("variance", format!("{:?}", got_var)));
                let time_ok = arr(&k["r"]).iter().any(|x| matches!(got_t, Ok(Ok(t)) if approx(t, eval(&x["t"]), 1e-11, 1e-6))
                    && (!matches!(got, Ok(Ok(_))) || matches!((&got, &got_t), (Ok(Ok(g)), Ok(Ok(t))) if approx(g.1, *t, 1e-13, 1e-6))));
                r.check(time_ok, &format!("time-{}", route), &v, || what("time", format!("{:?} {:?}", got_t, got)));
                let same = match (&many, &got_var) { (Ok(Ok(a)), Ok(Ok(b))) => a == b || (a.is_nan() && b.is_nan()), (Ok(Err(_)), _) => true, _ => false };
                r.check(same, &format!("vector-{}", route), &v, || format!("alone {:?}, among others {:?}", got_var, many));
                let disp = guarded(|| x.displacement(at.date()).map_err(|_| ()));
                let ok = match (s(&k["disp"][0]), &disp) {
                    ("err", Ok(Err(()))) => true,
                    ("num", Ok(Ok(g))) => approx(*g, eval(&k["disp"][1]), 1e-11, 1e-6),
                    _ => false,
                };
                r.check(ok, &format!("displacement-{}", route), &v, || format!("at {}: library {:?}, specification {}", at.date(), disp, k["disp"]));
            }
            for k in arr(&fv) {
                let (a, b) = (moment(&k["d"], &k["f"]), moment(&k["e"], &k["g"]));
                let strike = i(&k["k"]) as f64 / 100.0;
                let got = guarded(|| x.forward_variance(a, b, strike).map_err(|_| ()));
                r.check(allowed(&defs, &got, &k["r"], |x| eval(&x["v"])), &format!("forward-variance-{}", route), &v, || format!("from {:?} to {:?} strike {}: library {:?}, specification {}", a, b, strike, got,
                    arr(&k["r"]).iter().map(|x| format!("{} ok {:?}; ", eval(&x["v"]), judge(&defs, &x["c"]))).collect::<String>()));
            }
        }
    });
    r
}
