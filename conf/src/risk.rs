//! Replays MarketRisk.tla (P01, P02): markets, prefetched contexts and pricers under bumps,
//! restores and moves of the valuation date.

use crate::calendars::{day, make_calendar};
use crate::curves::read;
use crate::markets::*;
use crate::term::eval_with as eval;
use crate::util::*;
use quantmath::data::bump::Bump;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::instruments::{PricingContext, RcInstrument};
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::{Bumpable, BumpablePricingContext, Pricer, Saveable};
use quantmath::instruments::DependencyContext;
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;

pub type Got = Result<Result<f64, String>, String>;

pub fn make_bump(b: &Value) -> Bump {
    let (id, n, m) = (s(&b["id"]), i(&b["n"]) as f64, i(&b["m"]));
    let yields = || if b["o"] == "ann" { BumpYield::new_flat_annualised(n / 1e4) } else { BumpYield::new_flat_continuously_compounded(n / 1e4) };
    match (s(&b["k"]), s(&b["o"])) {
        ("spot", "rel") => Bump::new_spot(id, BumpSpot::new_relative(n / 1e4)),
        ("spot", _) => Bump::new_spot(id, BumpSpot::new_replace(n / 100.0)),
        ("div", _) => Bump::new_divs(id, BumpDivs::new_all_relative(n / 1e4)),
        ("rate", _) => Bump::new_yield(id, yields()),
        ("borrow", _) => Bump::new_borrow(id, yields()),
        ("vol", "par") => Bump::new_vol(id, BumpVol::new_flat_additive(n / 1e4)),
        ("vol", "ts") => Bump::new_vol(id, BumpVol::new_time_scaled(n / 1e4, m as f64 / 100.0)),
        ("vol", _) => Bump::new_vol(id, BumpVol::new_replace(n / 1e4)),
        (k, _) => fatal(k),
    }
}

pub fn make_portfolio(w: &Value, list: &[RcInstrument]) -> Vec<(f64, RcInstrument)> {
    arr(&w["port"]).iter().map(|p| (i(&p["x"]) as f64 / 100.0, list[i(&p["n"]) as usize - 1].clone())).collect()
}

fn said<T>(x: Result<T, quantmath::core::qm::Error>) -> Result<T, String> { x.map_err(|e| e.to_string()) }

pub fn bits(g: &Got) -> Option<u64> {
    match g { Ok(Ok(x)) => Some(x.to_bits()), _ => None }
}

/// Everything a context can be asked about that the specification speaks of.
#[derive(Clone)]
struct Seen { date: Date, at: HashMap<String, Got> }

struct Asked<'a> { w: &'a Value, list: &'a [RcInstrument] }

impl<'a> Asked<'a> {
    fn look(&self, c: &dyn PricingContext) -> Seen {
        let mut at = HashMap::new();
        let w = self.w;
        let from = day(&w["date"]);
        for (id, _) in w["rate"].as_object().unwrap() {
            for d in arr(&w["probes"]) {
                at.insert(format!("df {} {}", id, d), guarded(|| said(c.yield_curve(id, day(d)).and_then(|y| y.df(day(d), from)))));
            }
        }
        for (id, _) in w["spot"].as_object().unwrap() {
            at.insert(format!("spot {}", id), guarded(|| said(c.spot(id))));
        }
        for (n, _) in arr(&w["insts"]).iter().enumerate().filter(|x| x.1["kind"] == "equity") {
            let e: &dyn quantmath::instruments::Instrument = &*self.list[n];
            for d in arr(&w["probes"]) {
                let on = day(d);
                at.insert(format!("fwd {} {}", n + 1, d), guarded(|| said(c.forward_curve(e, on).and_then(|f| f.forward(on)))));
                for k in arr(&w["strikes"]) {
                    at.insert(format!("vol {} {} {}", n + 1, d, k), guarded(|| said(
                        c.vol_surface(e, on, &|| c.forward_curve(e, on)).and_then(|v| {
                            let mut out = [f64::NAN];
                            v.volatilities(DateDayFraction::new(on, 0.0), &[i(k) as f64 / 100.0], &mut out).map(|_| out[0])
                        }))));
                }
            }
        }
        let now = DateTime::new(c.spot_date(), TimeOfDay::Open);
        for p in arr(&w["port"]) {
            let x = &self.list[i(&p["n"]) as usize - 1];
            at.insert(format!("price {}", p["n"]), guarded(|| said(x.as_priceable().unwrap().price(c, now))));
        }
        Seen { date: c.spot_date(), at }
    }
}

/// One of the three things that are bumped, with its own save area and what was seen of it.
struct Actor { name: &'static str, seen: Vec<Seen>, totals: Vec<Got> }

pub fn run(ins: &[String], _seed: u64, part: &str) -> Report {
    let mut r = Report::new();
    let undo = part != "values";
    let values = part != "undo";
    let w = read(&ins[0]);
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(n, c)| make_calendar(c, &format!("C{}", n + 1))).collect();
    let markets: Vec<_> = arr(&w["markets"]).iter().map(|m| (make_market(m, &cals).unwrap_or_else(|e| fatal(&e.to_string())), make_instruments(&m["insts"]))).collect();
    let mut alldefs: HashMap<i64, Value> = HashMap::new();
    each_line(&ins[1], |mut v| {
        let wi = i(&v["w"]) as usize - 1;
        let mk = &w["markets"][wi];
        let (market, list) = &markets[wi];
        let defs = v["defs"].take();
        if arr(&v["hist"]).is_empty() { alldefs.insert(i(&v["w"]), defs); }
        let defs = &alldefs[&i(&v["w"])];
        let parts: Vec<_> = ["dfs", "spots", "fwds", "vols", "prices"].iter().map(|k| v.get_mut(*k).map_or(Value::Null, |x| x.take())).collect();
        let hist = arr(&v["hist"]).clone();
        r.cases += 1;
        if r.cases % 397 == 77 { r.sample(v.clone()); }
        let port = make_portfolio(mk, list);
        let ask = Asked { w: mk, list };

        let deps = {
            let mut d = DependencyCollector::new(market.spot_date());
            for (_, x) in &port { d.spot(x); }
            Arc::new(d)
        };
        let mut raw = market.clone();
        let mut pre = match said(PricingContextPrefetch::new(market, deps.clone())) { Ok(p) => p, Err(e) => { r.fail("prefetch", &v, e); return } };
        let mut pricer: Box<dyn Pricer> = match said(SelfPricer::new(port.clone(), market)) { Ok(p) => Box::new(p), Err(e) => { r.fail("pricer", &v, e); return } };
        let mut saves: Vec<Box<dyn Saveable>> = vec![raw.new_saveable(), pre.new_saveable(), pricer.as_bumpable().new_saveable()];
        let mut actors: Vec<_> = ["market", "prefetch", "pricer"].iter().map(|n| Actor { name: n, seen: vec![], totals: vec![] }).collect();
        let same = i(&v["same"]);
        for step in 0..hist.len() + 1 {
            if step > 0 {
                let h = &hist[step - 1];
                let mut did: Vec<Result<Result<bool, String>, String>> = vec![];
                match s(&h["a"]) {
                    "bump" => {
                        let b = make_bump(&mk["bumps"][i(&h["i"]) as usize - 1]);
                        let mut bs: Vec<&mut dyn Bumpable> = vec![&mut raw, &mut pre, pricer.as_mut_bumpable()];
                        for (x, sv) in bs.iter_mut().zip(saves.iter_mut()) {
                            did.push(guarded(|| said(x.bump(&b, if h["keep"] == true { Some(&mut **sv) } else { None }))));
                        }
                    }
                    "restore" => {
                        let mut bs: Vec<&mut dyn Bumpable> = vec![&mut raw, &mut pre, pricer.as_mut_bumpable()];
                        for (x, sv) in bs.iter_mut().zip(saves.iter()) {
                            did.push(guarded(|| said(x.restore(&**sv).map(|_| true))));
                        }
                    }
                    "clear" => for sv in saves.iter_mut() { sv.clear(); },
                    _ => {
                        let mv = &mk["moves"][i(&h["i"]) as usize - 1];
                        let to = pre.spot_date() + i(&mv["n"]) as i32;
                        let how = if mv["o"] == "forward" { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot };
                        let b = Bump::new_spot_date(BumpSpotDate::new(to, how));
                        did.push(guarded(|| said(pre.bump(&b, None))));
                        did.push(guarded(|| said(pricer.as_mut_bumpable().bump(&b, None))));
                        let bs = BumpSpotDate::new(to, how);
                        if h["r"] == true { did.push(guarded(|| said(raw.bump_spot_date(&bs, &deps).map(|_| true)))); }
                    }
                }
                if step == hist.len() {
                    let ok = did.iter().all(|x| matches!(x, Ok(Ok(b)) if h["r"] == *b));
                    r.check(ok, "acted", &v, || format!("the market, the prefetched context and the pricer said {:?}", did));
                    r.count(s(&h["a"]));
                }
                if did.iter().any(|x| !matches!(x, Ok(Ok(_)))) { return }
            }
            // the states before the last were looked at as cases of their own
            if step == hist.len() || step == 0 || step as i64 == same {
                let contexts: Vec<&dyn PricingContext> = vec![&raw, &pre, pricer.as_bumpable().context()];
                for (a, c) in actors.iter_mut().zip(contexts) { a.seen.push(ask.look(c)); }
                let total = guarded(|| said(pricer.price()));
                for a in actors.iter_mut() { a.totals.push(total.clone()); }
            } else {
                for a in actors.iter_mut() { let l = Seen { date: Date::from_nil(), at: HashMap::new() }; a.seen.push(l); a.totals.push(Ok(Err(String::new()))); }
            }
        }
        if hist.len() > 1 || (hist.len() == 1 && hist[0]["r"] == true) { r.nontrivial += 1; }

        for a in &actors {
            let last = a.seen.last().unwrap();
            let first = &a.seen[0];
            if undo && same >= 0 {
                let then = &a.seen[same as usize];
                r.check(last.date == then.date, "undone", &v, || format!("{}: date {:?}, was {:?}", a.name, last.date, then.date));
                for (k, x) in &then.at {
                    r.check(bits(x) == bits(&last.at[k]), "undone", &v, || format!("{}: {} is {:?}, was {:?} after {} of the actions", a.name, k, last.at[k], x, same));
                }
                let (x, y) = (&a.totals[same as usize], a.totals.last().unwrap());
                r.check(bits(x) == bits(y), "undone", &v, || format!("{}: worth {:?}, was {:?}", a.name, y, x));
            }
            if !values { continue }
            r.check(last.date == day(&v["date"]), "date", &v, || format!("{}: {:?}", a.name, last.date));
            let fixed = |x: &Value, k: &str| x["fix"] != true || bits(&first.at[k]) == bits(&last.at[k]);
            let whole = a.name == "market";
            for x in arr(&parts[0]) {
                let k = format!("df {} {}", s(&x["id"]), x["d"]);
                let g = &last.at[&k];
                r.check(matches!(g, Ok(Ok(g)) if approx(*g, eval(defs, &x["v"]), 1e-12, 1.0)) && fixed(x, &k), "discount", &v,
                    || format!("{}: {} is {:?}, specification {}; was {:?}", a.name, k, g, eval(defs, &x["v"]), first.at[&k]));
            }
            for x in arr(&parts[1]) {
                let k = format!("spot {}", s(&x["id"]));
                let g = &last.at[&k];
                r.check(matches!(g, Ok(Ok(g)) if approx(*g, eval(defs, &x["v"]), 1e-12, 1.0)) && fixed(x, &k), "spot", &v,
                    || format!("{}: {} is {:?}, specification {}; was {:?}", a.name, k, g, eval(defs, &x["v"]), first.at[&k]));
            }
            for x in arr(&parts[2]).iter().filter(|x| whole || x["fetched"] == true) {
                let k = format!("fwd {} {}", x["n"], x["d"]);
                let g = &last.at[&k];
                r.check(matches!(g, Ok(Ok(g)) if approx(*g, eval(defs, &x["v"]), 1e-11, 1.0)) && fixed(x, &k), "forward", &v,
                    || format!("{}: {} is {:?}, specification {}; was {:?}", a.name, k, g, eval(defs, &x["v"]), first.at[&k]));
            }
            for x in arr(&parts[3]).iter().filter(|x| whole || x["fetched"] == true) {
                let k = format!("vol {} {} {}", x["n"], x["d"], x["k"]);
                let g = &last.at[&k];
                r.check(vol_ok(defs, g, &x["r"]) && fixed(x, &k), "volatility", &v,
                    || format!("{}: {} is {:?}, specification {}; was {:?}", a.name, k, g, x["r"], first.at[&k]));
            }
            let mut sum = Some(0.0);
            for x in arr(&parts[4]) {
                let k = format!("price {}", x["n"]);
                let g = &last.at[&k];
                r.check(acceptable(defs, g, &x["r"], 1e-9, 200.0) && fixed(x, &k), "price", &v,
                    || format!("{}: {} is {:?}, specification {}; was {:?}", a.name, k, g, show(defs, &x["r"]), first.at[&k]));
                sum = match (sum, g) { (Some(t), Ok(Ok(p))) => Some(t + i(&x["x"]) as f64 / 100.0 * p), _ => None };
            }
            let total = a.totals.last().unwrap();
            r.check(match (sum, total) { (Some(t), Ok(Ok(g))) => approx(*g, t, 1e-11, 200.0), (None, Ok(Err(_))) => true, _ => false },
                "portfolio", &v, || format!("{}: worth {:?}, the parts come to {:?}", a.name, total, sum));
        }
        if values {
            // a pricer that has been bumped is as good as a new one on the bumped market
            let fresh = guarded(|| said(SelfPricer::new(port.clone(), pre.raw_market_data()).and_then(|p| p.price())));
            let total = actors[2].totals.last().unwrap();
            r.check(match (&fresh, total) { (Ok(Ok(a)), Ok(Ok(b))) => approx(*a, *b, 1e-12, 200.0), (Ok(Err(_)), Ok(Err(_))) => true, _ => false },
                "rebuilt", &v, || format!("bumped pricer {:?}, a new one {:?}", total, fresh));
        }
    });
    r
}

fn vol_ok(defs: &Value, got: &Got, results: &Value) -> bool {
    match got {
        Err(_) => false,
        Ok(g) => crate::vols::allowed(defs, &Ok(g.clone().map_err(|_| ())), results, |x| eval(defs, &x["v"])),
    }
}

