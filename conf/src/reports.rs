//! Replays Reports.tla (P04, P05): greeks, time-bumped reports and moves of the valuation date.

use crate::calendars::make_calendar;
use crate::curves::read;
use crate::markets::*;
use crate::risk::{bits, make_bump, make_portfolio, Got};
use crate::term::eval_with as eval;
use crate::util::*;
use quantmath::core::factories::Qrc;
use quantmath::data::bumpspotdate::SpotDynamics;
use quantmath::data::bumpvol::BumpVol;
use quantmath::dates::Date;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::{DeltaGammaReport, DeltaGammaReportGenerator};
use quantmath::risk::timebumped::{TimeBumpedReport, TimeBumpedReportGenerator};
use quantmath::risk::vegavolga::{VegaVolgaReport, VegaVolgaReportGenerator};
use quantmath::risk::{Pricer, RcReportGenerator, Report as LibReport, ReportGenerator};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;

fn said<T>(x: Result<T, quantmath::core::qm::Error>) -> Result<T, String> { x.map_err(|e| e.to_string()) }

pub fn time_bump(from: Date, g: &Value) -> BumpTime {
    let how = if g["o"] == "forward" { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot };
    let to = from + i(&g["n"]) as i32;
    BumpTime::new(to, to, how)
}

pub fn make_generator(g: &Value, on: Date) -> RcReportGenerator {
    let n = i(&g["n"]) as f64 / 1e4;
    let x: Arc<dyn ReportGenerator> = match s(&g["k"]) {
        "delta" => Arc::new(DeltaGammaReportGenerator::new(n)),
        "vega" => Arc::new(VegaVolgaReportGenerator::new(
            if g["o"] == "par" { BumpVol::new_flat_additive(n) } else { BumpVol::new_time_scaled(n, i(&g["m"]) as f64 / 100.0) })),
        _ => {
            let mut t = TimeBumpedReportGenerator::new(time_bump(on, g));
            for sub in arr(&g["subs"]) { t.add(make_generator(sub, on + i(&g["n"]) as i32)); }
            Arc::new(t)
        }
    };
    Qrc::new(x)
}

/// What some holdings come to, if they can be valued, and whether they surely can.
fn total(defs: &Value, worths: &Value) -> Option<f64> { valued(defs, worths).map(|x| x.0) }
fn valued(defs: &Value, worths: &Value) -> Option<(f64, bool)> {
    let (mut sum, mut sure) = (0.0, true);
    for p in arr(worths) {
        let answers: Vec<_> = arr(&p["r"]).iter().map(|x| answer(defs, x)).collect();
        if answers.is_empty() || answers.iter().any(|a| a.0 == Some(false)) { return None }
        sure &= answers.iter().all(|a| a.0 == Some(true));
        let v = answers[0].1;
        if answers.iter().any(|a| !approx(a.1, v, 1e-13, 1.0)) { return None }
        sum += v * i(&p["x"]) as f64 / 100.0;
    }
    Some((sum, sure))
}

struct Judge<'a> { r: &'a mut Report, v: &'a Value, defs: &'a Value, greeks: bool, time: bool, scale: f64 }

impl<'a> Judge<'a> {
    /// Whether every number of an expected report can be told from the specification.
    fn settled(&self, e: &Value) -> bool {
        let surely = |x: &Value| valued(self.defs, x).map_or(false, |v| v.1);
        let all = |x: &Value| ["un", "up", "dn"].iter().all(|k| surely(&x[*k]));
        match s(&e["k"]) {
            "time" => surely(&e["price"]) && arr(&e["subs"]).iter().all(|x| self.settled(x)),
            _ => arr(&e["ids"]).iter().all(all),
        }
    }

    fn differences(&mut self, what: &str, e: &Value, got: HashMap<String, (f64, f64)>) {
        let size = i(&e["n"]) as f64 / 1e4;
        let mut known: Vec<String> = vec![];
        for x in arr(&e["ids"]) {
            let id = s(&x["id"]).to_string();
            known.push(id.clone());
            let (un, up, dn) = (total(self.defs, &x["un"]), total(self.defs, &x["up"]), total(self.defs, &x["dn"]));
            let (un, up, dn) = match (un, up, dn) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => continue };
            let step = if what == "delta" { size * eval(self.defs, &x["spot"]) } else { size };
            let scale = self.scale;
            // the reported numbers as the price differences they stand for
            let near = |a: f64, d: f64| (a - d).abs() <= 3e-10 * scale;
            let fits = |g: &(f64, f64), dn: f64| (near(g.0 * 2.0 * step, up - dn), near(g.1 * step * step, up + dn - 2.0 * un));
            match got.get(&id) {
                None => { self.r.check(up == un && dn == un, what, self.v, || format!("nothing reported for {}", id)); }
                Some(g) => {
                    let mut ok = fits(g, dn);
                    self.r.count(what);
                    if what == "vega" && ok != (true, true) {
                        if let Some(pin) = total(self.defs, &x["pin"]) {
                            if fits(g, pin) == (true, true) {
                                ok = (true, true);
                                self.r.fail("vega-down-bump", self.v, format!("{}: {:?}; bumped up {:?}, bumped down {:?}, unbumped {:?}", id, g, up, dn, un));
                            }
                        }
                    }
                    self.r.check(ok == (true, true), what, self.v, || format!("{}: {:?}, which is {:?}; bumped up {:?}, bumped down {:?}, unbumped {:?}, so {:?}",
                        id, g, (g.0 * 2.0 * step, g.1 * step * step), up, dn, un, (up - dn, up + dn - 2.0 * un)));
                }
            }
        }
        for (id, g) in got {
            if !known.contains(&id) {
                let scale = self.scale;
                self.r.check((g.0 * size).abs() < 1e-10 * scale && (g.1 * size * size).abs() < 1e-10 * scale, what, self.v,
                    || format!("{}: {:?}, though nothing depends on it", id, g));
            }
        }
    }

    fn report(&mut self, e: &Value, got: &dyn LibReport, unbumped: f64) {
        let any = got.as_any();
        match s(&e["k"]) {
            "delta" => match any.downcast_ref::<DeltaGammaReport>() {
                None => self.r.fail("kind", self.v, format!("not a delta report: {}", got.get_type_id())),
                Some(g) => if self.greeks { self.differences("delta", e, g.results().iter().map(|(k, x)| (k.clone(), (x.delta(), x.gamma()))).collect()) },
            },
            "vega" => match any.downcast_ref::<VegaVolgaReport>() {
                None => self.r.fail("kind", self.v, format!("not a vega report: {}", got.get_type_id())),
                Some(g) => if self.greeks { self.differences("vega", e, g.results().iter().map(|(k, x)| (k.clone(), (x.vega(), x.volga()))).collect()) },
            },
            _ => match any.downcast_ref::<TimeBumpedReport>() {
                None => self.r.fail("kind", self.v, format!("not a time-bumped report: {}", got.get_type_id())),
                Some(g) => {
                    if self.time {
                        self.r.count("time");
                        let scale = self.scale;
                        match total(self.defs, &e["price"]) {
                            None => {}
                            Some(p) => { self.r.check((g.price() - p).abs() <= 1e-10 * scale, "later", self.v,
                                || format!("{:?} after {} days sticky {}, specification {:?}", g.price(), e["n"], e["o"], p)); }
                        }
                        self.r.check((g.theta() - (g.price() - unbumped)).abs() <= 1e-12 * scale, "theta", self.v,
                            || format!("theta {:?}; {:?} now, {:?} later", g.theta(), unbumped, g.price()));
                    }
                    let n = arr(&e["subs"]).len();
                    self.r.check(g.subreports().len() == n, "subreports", self.v, || format!("{} reports, not {}", g.subreports().len(), n));
                    for (sub, x) in arr(&e["subs"]).iter().zip(g.subreports()) { self.report(sub, &**x, g.price()); }
                }
            },
        }
    }
}

pub fn run(ins: &[String], _seed: u64, part: &str) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(n, c)| make_calendar(c, &format!("C{}", n + 1))).collect();
    let markets: Vec<_> = arr(&w["markets"]).iter().map(|m| (make_market(m, &cals).unwrap_or_else(|e| fatal(&e.to_string())), make_instruments(&m["insts"]))).collect();
    let mut alldefs: HashMap<i64, Value> = HashMap::new();
    each_line(&ins[1], |mut v| {
        let wi = i(&v["w"]) as usize - 1;
        let mk = &w["markets"][wi];
        let (market, list) = &markets[wi];
        let defs = v["defs"].take();
        if arr(&v["hist"]).is_empty() { alldefs.insert(i(&v["w"]), defs); }
        let defs = &alldefs[&i(&v["w"])];
        let price = v["price"].take();
        let report = v["report"].take();
        let hist = arr(&v["hist"]).clone();
        r.cases += 1;
        if r.cases % 397 == 77 { r.sample(v.clone()); }
        if !hist.is_empty() { r.nontrivial += 1; }
        let port = make_portfolio(mk, list);
        let scale: f64 = 200.0 * port.iter().map(|p| p.0.abs()).sum::<f64>();
        let mut pricer: Box<dyn Pricer> = match said(SelfPricer::new(port, market)) { Ok(p) => Box::new(p), Err(e) => { r.fail("pricer", &v, e); return } };
        let mut save = pricer.as_bumpable().new_saveable();
        for (n, h) in hist.iter().enumerate() {
            let at = i(&h["i"]) as usize - 1;
            let last = n + 1 == hist.len();
            match s(&h["a"]) {
                "bump" => {
                    let b = make_bump(&mk["bumps"][at]);
                    if let x @ (Err(_) | Ok(Err(_))) = guarded(|| said(pricer.as_mut_bumpable().bump(&b, None))) { r.fail("bump", &v, format!("{:?}", x)); return }
                }
                "advance" => {
                    let b = time_bump(pricer.as_bumpable().context().spot_date(), &mk["moves"][at]);
                    if let x @ (Err(_) | Ok(Err(_))) = guarded(|| said(pricer.as_mut_time_bumpable().bump_time(&b))) {
                        if last { r.fail("advance", &v, format!("{:?}", x)); }
                        return
                    }
                }
                _ => {
                    let before: Got = guarded(|| said(pricer.price()));
                    let unbumped = match before { Ok(Ok(x)) => x, _ => return };
                    let g = make_generator(&mk["gens"][at], pricer.as_bumpable().context().spot_date());
                    let date = pricer.as_bumpable().context().spot_date();
                    let got = guarded(|| said(g.generate(&mut *pricer, &mut *save, unbumped)));
                    if !last {
                        // one that fails stops half way
                        if !matches!(got, Ok(Ok(_))) { return }
                        continue
                    }
                    r.count("reports");
                    let mut judge = Judge { r: &mut r, v: &v, defs, greeks: part == "greeks", time: part == "time", scale };
                    match got {
                        Err(e) => r.fail("panic", &v, e),
                        Ok(Err(e)) => { let ok = !judge.settled(&report[0]); r.check(ok, "error", &v, || e); return }
                        Ok(Ok(got)) => judge.report(&report[0], &*got, unbumped),
                    }
                    // the pricer, and the save area, are as they were
                    let after: Got = guarded(|| said(pricer.price()));
                    r.check(bits(&after) == bits(&before) && date == pricer.as_bumpable().context().spot_date(), "disturbed", &v,
                        || format!("worth {:?} on {:?} before the report, {:?} after", before, date, after));
                    let put_back = guarded(|| said(pricer.as_mut_bumpable().restore(&*save)));
                    let after: Got = guarded(|| said(pricer.price()));
                    r.check(matches!(put_back, Ok(Ok(()))) && bits(&after) == bits(&before), "left-over", &v,
                        || format!("worth {:?} before the report, {:?} once the save area is restored", before, after));
                    // a further report sees nothing of it
                    let again = guarded(|| said(g.generate(&mut *pricer, &mut *save, unbumped)));
                    if let Ok(Ok(again)) = again {
                        let mut judge = Judge { r: &mut r, v: &v, defs, greeks: part == "greeks", time: part == "time", scale };
                        judge.report(&report[0], &*again, unbumped);
                    } else { r.fail("again", &v, "no report the second time".to_string()); }
                }
            }
        }
        if part == "time" && hist.last().map_or(true, |h| h["a"] != "report") {
            let got: Got = guarded(|| said(pricer.price()));
            match valued(defs, &price) {
                None => r.count("unsettled"),
                Some((p, sure)) => { r.count("priced"); r.check(match got { Ok(Ok(g)) => (g - p).abs() <= 1e-10 * scale, Ok(Err(_)) => !sure, _ => false }, "price", &v, || format!("worth {:?}, specification {:?}", got, p)); }
            }
        }
    });
    r
}
