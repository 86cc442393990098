//! Replays Lifecycle.tla (P06): what instruments become as fixings are learnt.

use crate::calendars::day;
use crate::curves::read;
use crate::forwards::settlement;
use crate::markets::*;
use crate::term::eval;
use crate::util::*;
use quantmath::data::fixings::{Fixings, FixingTable};
use quantmath::dates::datetime::DateTime;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::{fix_all, RcInstrument};
use serde_json::Value;
use std::collections::BTreeMap;

type Holdings = Vec<(f64, RcInstrument)>;

pub fn table(case: &Value, stage: &Value) -> FixingTable {
    table_of(arr(&case["fixes"]).iter().filter(|f| i(&f["d"]) < i(&stage["u"]) || (f["d"] == stage["u"] && i(&f["t"]) <= i(&stage["t"]))), &stage["u"])
}

pub fn table_of<'a>(fixes: impl Iterator<Item = &'a Value>, until: &Value) -> FixingTable {
    let mut by: BTreeMap<String, Vec<(DateTime, f64)>> = BTreeMap::new();
    for f in fixes {
        by.entry(s(&f["id"]).to_string()).or_default().push((date_time(&f["d"], &f["t"]), i(&f["v"]) as f64 / 100.0));
    }
    let mut t = FixingTable::new(day(until));
    for (k, x) in by { t.insert(&k, Fixings::new(&k, &x).unwrap_or_else(|e| fatal(&e.to_string()))).unwrap_or_else(|e| fatal(&e.to_string())); }
    t
}

/// The holdings of the specification, made with the library's constructors.
fn expected(h: &Value, insts: &Value, made: &[RcInstrument]) -> Holdings {
    arr(h).iter().map(|x| (arr(&x["x"]).iter().map(|t| eval(t)).product(), one(&x["q"], insts, made))).collect()
}

fn one(q: &Value, insts: &Value, made: &[RcInstrument]) -> RcInstrument {
    let n = i(&q["n"]) as usize - 1;
    let e = &insts[n];
    let put = || if e["put"] == true { PutOrCall::Put } else { PutOrCall::Call };
    let phys = || if e["phys"] == true { OptionSettlement::Physical } else { OptionSettlement::Cash };
    match s(&q["k"]) {
        "as" => made[n].clone(),
        "struck" => rc(SpotStartingEuropean::new(s(&e["id"]), s(&e["credit"]), made[i(&e["u"]) as usize - 1].clone(), settlement(i(&e["lag"])),
            date_time(&e["ed"], &e["et"]), i(&q["f"]) as f64 / 100.0 * (i(&e["frac"]) as f64 / 10000.0), put(), phys()).unwrap_or_else(|e| fatal(&e.to_string()))),
        "pay" => rc(ZeroCoupon::new(&format!("{}:payment", s(&e["id"])), s(&e["credit"]), sterling(), date_time(&e["ed"], &e["et"]),
            settlement(i(&e["lag"])).apply(day(&e["ed"])), settlement(i(&e["lag"])))),
        "basket" => rc(Basket::new(&format!("{}{}", s(&e["id"]), ":fixed".repeat(i(&q["c"]) as usize)), s(&e["credit"]), sterling(), settlement(i(&e["lag"])),
            expected(&q["ms"], insts, made)).unwrap_or_else(|e| fatal(&e.to_string()))),
        k => fatal(k),
    }
}

fn json(x: &RcInstrument) -> Value { serde_json::to_value(x).unwrap_or_else(|e| fatal(&e.to_string())) }

/// The same holdings in the same order; the names given to fixed baskets are the library's business.
fn same(a: &Holdings, b: &Holdings) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| approx(x.0, y.0, 1e-13, 1e-9) && same_json(&nameless(json(&x.1)), &nameless(json(&y.1))))
}

fn nameless(v: Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, x)| {
            if let ("id", Some(t)) = (k.as_str(), x.as_str()) { let t = t.replace(":fixed", ""); return (k, Value::from(t)) }
            (k, nameless(x))
        }).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(nameless).collect()),
        Value::Number(n) => { let x = n.as_f64().unwrap(); Value::from(if x == 0.0 { 0.0 } else { x }) }
        x => x,
    }
}

fn show(h: &Holdings) -> String {
    h.iter().map(|x| format!("{} of {}; ", x.0, json(&x.1))).collect()
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    let made: Vec<_> = arr(&w["cases"]).iter().map(|c| make_instruments(&c["insts"])).collect();
    each_line(&ins[1], |mut v| {
        let wi = i(&v["w"]) as usize - 1;
        let (case, list) = (&w["cases"][wi], &made[wi]);
        let (h, each) = (v["h"].take(), v["each"].take());
        v["world"] = case.clone();
        r.cases += 1;
        if r.cases % 397 == 77 { r.sample(v.clone()); }
        let start: Holdings = arr(&case["book"]).iter().map(|b| (i(&b["x"]) as f64 / 100.0, list[i(&b["n"]) as usize - 1].clone())).collect();
        let mut held = start.clone();
        let hist = arr(&v["hist"]);
        let edge = v["edge"] == true;
        let before: Vec<_> = list.iter().map(json).collect();
        for (k, a) in hist.iter().enumerate() {
            let t = table(case, &case["stages"][i(&a["i"]) as usize - 1]);
            let got = guarded(|| fix_all(&held, &t).map_err(|e| e.to_string()));
            if k + 1 == hist.len() {
                r.count(s(&a["o"]));
                if a["o"] == "new" { r.nontrivial += 1; }
                let ok = match (&got, s(&a["o"])) {
                    (Ok(Ok(None)), "same") | (Ok(Err(_)), "error") => true,
                    (Ok(Ok(Some(x))), "new") => edge || same(x, &expected(&h, &case["insts"], list)),
                    _ => false,
                };
                r.check(ok, "becomes", &v, || format!("library {:?}, specification {} {}", got.as_ref().map(|g| g.as_ref().map(|x| x.as_ref().map(show))),
                    s(&a["o"]), show(&expected(&h, &case["insts"], list))));
            }
            if let Ok(Ok(Some(x))) = got { held = x; }
        }
        if v["err"] == true || edge { return }
        let t = table(case, &case["stages"][i(&hist.last().unwrap()["i"]) as usize - 1]);
        // all at once
        let once = guarded(|| fix_all(&start, &t).map_err(|e| e.to_string()));
        r.check(match &once { Ok(Ok(Some(x))) => same(x, &held), Ok(Ok(None)) => same(&start, &held), _ => false }, "staged", &v,
            || format!("in stages {}, at once {:?}", show(&held), once.as_ref().map(|g| g.as_ref().map(|x| x.as_ref().map(show)))));
        // each instrument by itself
        for (b, e) in arr(&case["book"]).iter().zip(arr(&each)) {
            let got = guarded(|| list[i(&b["n"]) as usize - 1].fix(&t).map_err(|e| e.to_string()));
            let ok = match (&got, s(&e["o"])) {
                (Ok(Ok(None)), "same") | (Ok(Err(_)), "error") => true,
                (Ok(Ok(Some(x))), "new") => same(x, &expected(&e["h"], &case["insts"], list)),
                _ => false,
            };
            r.check(ok, "alone", &v, || format!("instrument {}: library {:?}, specification {} {}", b["n"],
                got.as_ref().map(|g| g.as_ref().map(|x| x.as_ref().map(show))), s(&e["o"]), show(&expected(&e["h"], &case["insts"], list))));
        }
        r.check(before.iter().zip(list).all(|(b, x)| *b == json(x)), "left-alone", &v, || "an instrument changed".to_string());
    });
    r
}
