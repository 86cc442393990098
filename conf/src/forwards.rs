//! Replays EqForward.tla (P12).

use crate::calendars::day;
use crate::curves::{make_curve, read};
use crate::term::eval;
use crate::util::*;
use quantmath::core::factories::Qrc;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::divstream::*;
use quantmath::data::forward::*;
use quantmath::dates::calendar::WeekdayCalendar;
use quantmath::dates::rules::*;
use quantmath::math::interpolation::{Extrap, Interpolate, Linear};
use serde_json::Value;
use std::sync::Arc;

pub fn settlement(lag: i64) -> RcDateRule {
    if lag < 0 { return Qrc::new(Arc::new(NullRule::new())); }
    Qrc::new(Arc::new(BusinessDays::new_step(Qrc::new(Arc::new(WeekdayCalendar::new())), lag as u32)))
}

pub fn bump_curve(c: RcRateCurve, stack: &Value) -> RcRateCurve {
    arr(stack).iter().fold(c, |c, b| {
        let x = i(&b[1]) as f64 / 10000.0;
        match s(&b[0]) {
            "ann" => BumpYield::new_flat_annualised(x).apply(c),
            _ => BumpYield::new_flat_continuously_compounded(x).apply(c),
        }
    })
}

pub fn make_divs(e: &Value) -> RcDividendStream {
    let divs: Vec<Dividend> = arr(&e["divs"]).iter()
        .map(|d| Dividend::new(i(&d["cash"]) as f64 / 100.0, i(&d["rel"]) as f64 / 10000.0, day(&d["ex"]), day(&d["pay"]))).collect();
    RcDividendStream::new(Arc::new(DividendStream::new(&divs, make_curve(&e["yield"]))))
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    each_line(&ins[1], |mut v| {
        r.cases += 1;
        let q = v["q"].take();
        let e = &w["equities"][i(&v["w"]) as usize - 1];
        let base = day(&e["base"]);
        let (rate, borrow) = (bump_curve(make_curve(&e["rate"]), &v["rst"]), bump_curve(make_curve(&e["borrow"]), &v["bst"]));
        let divs = arr(&v["dst"]).iter().fold(make_divs(e), |d, b| BumpDivs::new_all_relative(i(b) as f64 / 10000.0).apply(d));
        let spot = i(&e["spot"]) as f64 / 100.0;
        let rf = v["ref"].take();
        if r.cases % 97 == 77 { r.sample(v.clone()); }
        if !arr(&e["divs"]).is_empty() { r.nontrivial += 1; }
        let fwd = guarded(|| EquityForward::new(base, spot, settlement(i(&e["lag"])), rate.clone(), borrow.clone(), &divs, day(&e["hwm"])).map_err(|x| x.to_string()));
        let boot = guarded(|| DividendBootstrap::new(&divs, &*rate, &*borrow, eval(&rf), base, day(&e["hwm"])).map_err(|x| x.to_string()));
        let ok = v["ok"] == true;
        r.check(matches!(&fwd, Ok(f) if f.is_ok() == ok), "new-forward", &v, || match &fwd { Ok(Ok(_)) => "accepted".into(), Ok(Err(x)) => x.clone(), Err(x) => x.clone() });
        r.check(matches!(&boot, Ok(f) if f.is_ok() == ok), "new-bootstrap", &v, || "bootstrap".into());
        let (fwd, boot) = match (fwd, boot) { (Ok(Ok(f)), Ok(Ok(b))) => (f, b), _ => return };
        r.check(boot.base_date() == base, "base", &v, || "base date".into());
        let mut quotes: Vec<(quantmath::dates::Date, f64)> = vec![];
        let mut prev: Option<(quantmath::dates::Date, f64, f64)> = None;
        for k in arr(&q) {
            let d = day(&k["d"]);
            let got = guarded(|| [fwd.forward(d).ok(), fwd.fixed_divs_after(d).ok(), boot.discounted_sum_from_base(d).ok(),
                boot.undiscounted_sum_from_base(d).ok(), boot.discounted_cash_divs_after(d).ok(), fwd.interpolate(d).ok()]);
            let got = match got { Ok(g) => g, Err(p) => { r.fail("panic", &v, p); continue } };
            let oks = got.iter().filter(|g| g.is_some()).count();
            match s(&k["range"]) {
                "in" => { r.check(oks == 6, "refused", &v, || format!("{}: {:?}", d, got)); }
                "out" => { r.check(oks == 0, "beyond-horizon", &v, || format!("{}: {:?}", d, got)); }
                _ => (),
            }
            if oks != 6 { continue }
            let g: Vec<f64> = got.iter().map(|x| x.unwrap()).collect();
            let (want, pinned) = (eval(&k["fwd"]), eval(&k["pinned"]));
            let what = format!("forward on {}", d);
            if !approx(g[0], want, 1e-10, 1.0) && approx(g[0], pinned, 1e-10, 1.0) {
                r.fail("dividend-yield-raises-forward", &v, format!("{}: library {}, specification {}", what, g[0], want));
            } else {
                r.close(g[0], want, 1e-10, 1.0, "forward", &v, &what);
            }
            r.close(g[5], g[0], 0.0, 0.0, "forward-as-interpolator", &v, &what);
            let (sum, amounts) = (eval(&k["sum"]), eval(&k["amounts"]));
            r.close(g[1], eval(&k["after"]), 1e-10, 1.0, "cash-after", &v, &format!("cash after {}", d));
            r.close(g[4], eval(&k["after"]), 1e-10, 1.0, "cash-after", &v, &format!("cash after {}", d));
            r.close(g[2], sum, 1e-10, 1.0, "discounted", &v, &format!("discounted dividends to {}", d));
            r.close(g[3], amounts, 1e-10, 1.0, "undiscounted", &v, &format!("dividends to {}", d));
            if let Some((p, ps, pa)) = prev {
                let b = (boot.discounted_sum(p, d), boot.undiscounted_sum(p, d));
                if let (Ok(x), Ok(y)) = b {
                    r.close(x, sum - ps, 1e-10, 1.0, "discounted-between", &v, &format!("{} to {}", p, d));
                    r.close(y, amounts - pa, 1e-10, 1.0, "undiscounted-between", &v, &format!("{} to {}", p, d));
                } else { r.fail("between", &v, "error".into()); }
            }
            prev = Some((d, sum, amounts));
            quotes.push((d, want));
        }
        // the forwards quoted as such
        if quotes.len() > 1 {
            let points = quotes.clone();
            let quoted = guarded(move || InterpolatedForward::new(Box::new(Linear::new(&points, Extrap::Flat, Extrap::Flat).unwrap())));
            let quoted = match quoted { Ok(f) => f, Err(p) => { r.fail("panic", &v, p); return } };
            for (k, (d, want)) in quotes.iter().enumerate() {
                let mut here = vec![(*d, *want)];
                if k > 0 {
                    let (p, x) = quotes[k - 1];
                    let n = (*d - p) / 3;
                    here.push((p + n, x + (want - x) * n as f64 / (*d - p) as f64));
                } else { here.push((*d - 3, *want)); }
                for (d, want) in here {
                    let got = (quoted.forward(d).unwrap_or(f64::NAN), quoted.as_interp().interpolate(d).unwrap_or(f64::NAN), quoted.fixed_divs_after(d).unwrap_or(f64::NAN));
                    r.close(got.0, want, 1e-12, 1.0, "quoted", &v, &format!("quoted forward on {}", d));
                    r.close(got.1, want, 1e-12, 1.0, "quoted", &v, &format!("quoted forward on {}", d));
                    r.close(got.2, 0.0, 0.0, 0.0, "quoted", &v, &format!("fixed dividends after {}", d));
                }
            }
        }
    });
    // assets without drift or with a given curve
    let d0 = quantmath::dates::Date::from_truncated_julian(18000);
    let c = serde_json::json!({"driftless": true});
    let f = DriftlessForward::new(123.5);
    for n in [0, 1, 100, 5000] {
        r.check(f.forward(d0 + n).ok() == Some(123.5) && f.fixed_divs_after(d0 + n).ok() == Some(0.0), "driftless", &c, || "driftless".into());
    }
    r
}
