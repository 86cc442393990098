//! Replays Curves.tla (P13).

use crate::calendars::day;
use crate::interp::extrap;
use crate::term::eval;
use crate::util::*;
use quantmath::core::factories::Qrc;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::curves::*;
use serde_json::Value;
use std::sync::Arc;

/// {kind, base, x, y (bp), left, right}
pub fn make_curve(v: &Value) -> RcRateCurve {
    if v["kind"] == "zero" {
        return Qrc::new(Arc::new(ZeroRateCurve::new(day(&v["base"]))));
    }
    let pts: Vec<_> = arr(&v["x"]).iter().zip(arr(&v["y"])).map(|(x, y)| (day(x), i(y) as f64 / 10000.0)).collect();
    Qrc::new(Arc::new(RateCurveAct365::new(day(&v["base"]), &pts, extrap(&v["left"]), extrap(&v["right"])).unwrap_or_else(|_| fatal("curve"))))
}

pub fn read(path: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap()
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    each_line(&ins[1], |mut v| {
        r.cases += 1;
        let q = v["q"].take();
        let cv = &w["curves"][i(&v["c"]) as usize - 1];
        let stack = arr(&v["stack"]).clone();
        if !stack.is_empty() { r.nontrivial += 1; }
        if r.cases % 97 == 77 { r.sample(v.clone()); }
        let direct = guarded(|| stack.iter().fold(make_curve(cv), |c, b| {
            let x = i(&b[1]) as f64 / 10000.0;
            match s(&b[0]) {
                "ann" => Qrc::new(Arc::new(AnnualisedFlatBump::new(c, x))),
                "cc" => Qrc::new(Arc::new(ContinuouslyCompoundedFlatBump::new(c, x))),
                _ => Qrc::new(Arc::new(RelativeBump::new(c, x))),
            }
        }));
        let bumped = guarded(|| stack.iter().fold(make_curve(cv), |c, b| {
            let x = i(&b[1]) as f64 / 10000.0;
            match s(&b[0]) {
                "ann" => BumpYield::new_flat_annualised(x).apply(c),
                "cc" => BumpYield::new_flat_continuously_compounded(x).apply(c),
                _ => Qrc::new(Arc::new(RelativeBump::new(c, x))),
            }
        }));
        let json = guarded(|| {
            let t = serde_json::to_string(direct.as_ref().unwrap()).unwrap();
            serde_json::from_str::<RcRateCurve>(&t).unwrap()
        });
        for (route, c) in [("direct", direct.clone()), ("bumps", bumped.clone()), ("json", json.clone())] {
            let c = match c { Ok(c) => c, Err(p) => { r.fail(&format!("build-{}", route), &v, p); continue } };
            r.check(c.base_date() == day(&cv["base"]), &format!("base-{}", route), &v, || c.base_date().to_string());
            let mut rts = vec![];
            for k in arr(&q) {
                let d = day(&k["d"]);
                let got = guarded(|| (c.r_and_t(d).map_err(|_| ()), c.rt(d).map_err(|_| ())));
                if k["ok"] == false {
                    r.check(got == Ok((Err(()), Err(()))), &format!("refused-{}", route), &v, || format!("{}: {:?}", d, got));
                    continue;
                }
                let (er, et) = (eval(&k["r"]), eval(&k["t"]));
                rts.push((d, er * et));
                match got {
                    Ok((Ok((gr, gt)), Ok(grt))) => {
                        r.close(grt, er * et, 1e-10, 1e-3, &format!("rt-{}", route), &v, &format!("rate times time at {}", d));
                        r.close(gr * gt, er * et, 1e-10, 1e-3, &format!("r-and-t-{}", route), &v, &format!("rate by time at {}", d));
                        if et != 0.0 { r.close(gr, er, 1e-10, 1e-3, &format!("r-{}", route), &v, &format!("rate at {}", d)); }
                        r.close(gt, et, 1e-12, 1e-3, &format!("t-{}", route), &v, &format!("time at {}", d));
                    }
                    g => r.fail(&format!("rt-{}", route), &v, format!("{}: library {:?}, specification {}", d, g, er * et)),
                }
            }
            if route == "json" { continue }
            for (a, x) in &rts {
                for (b, y) in &rts {
                    let got = guarded(|| c.df(*a, *b).map_err(|_| ()));
                    let want = (y - x).exp();
                    let ok = matches!(got, Ok(Ok(g)) if approx(g, want, 1e-10, 0.0) && (a != b || g == 1.0));
                    r.check(ok, &format!("df-{}", route), &v, || format!("df from {} to {}: library {:?}, specification {}", a, b, got, want));
                }
            }
        }
    });
    r
}
