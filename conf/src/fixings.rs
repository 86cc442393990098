//! Replays FixingTable.tla and records histories for FixingTrace.tla (P07).

use crate::util::*;
use quantmath::data::fixings::{FixingTable, Fixings, RcFixingTable};
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::dates::Date;
use serde_json::{json, Value};

pub fn tod(v: &str) -> TimeOfDay {
    match v {
        "Open" => TimeOfDay::Open,
        "EDSP" => TimeOfDay::EDSP,
        "Close" => TimeOfDay::Close,
        _ => fatal("time of day"),
    }
}

pub fn moment(day: &Value, t: &Value) -> DateTime {
    DateTime::new(Date::from_truncated_julian(i(day) as i32), tod(s(t)))
}

fn points(op: &Value) -> Vec<(DateTime, f64)> {
    arr(&op["pts"]).iter().map(|p| (moment(&p[0], &p[1]), i(&p[2]) as f64 / 4.0)).collect()
}

fn look(r: &mut Report, t: &FixingTable, v: &Value, route: &str) {
    for q in arr(&v["look"]) {
        let id = s(&q[0]);
        let at = moment(&q[1], &q[2]);
        let got = guarded(|| match t.get(id, at) {
            Ok(Some(x)) => ("value", x),
            Ok(None) => ("absent", 0.0),
            Err(_) => ("error", 0.0),
        });
        let want = (s(&q[3]), i(&q[4]) as f64 / 4.0);
        r.check(got == Ok(want), &format!("lookup-{}", route), v, || format!("{} at {}: library {:?}, specification {:?}", id, at, got, want));
        let got = guarded(|| t.get_optional(id, at));
        let want = if want.0 == "value" { Some(want.1) } else { None };
        r.check(got == Ok(want), &format!("optional-{}", route), v, || format!("{} at {}: library {:?}, specification {:?}", id, at, got, want));
        let got = guarded(|| t.get_fixings(id).and_then(|f| f.get_optional(at)));
        r.check(got == Ok(want), &format!("curve-{}", route), v, || format!("{} at {}: library {:?}, specification {:?}", id, at, got, want));
    }
    // an instrument nobody supplied
    let known = i(&v["known"]) as i32;
    for d in known - 1..known + 2 {
        let at = DateTime::new(Date::from_truncated_julian(d), TimeOfDay::Close);
        let got = guarded(|| t.get("nobody", at).map_err(|_| ()));
        let want = if d < known { Err(()) } else { Ok(None) };
        r.check(got == Ok(want), &format!("lookup-unknown-{}", route), v, || format!("{:?}", got));
    }
    r.check(t.fixings_known_until() == Date::from_truncated_julian(known), "known-until", v, || "known until".into());
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    each_line(&ins[0], |v| {
        r.cases += 1;
        let ops = arr(&v["ops"]);
        if ops.iter().any(|o| o["ok"] == false) { r.nontrivial += 1; }
        if r.cases % 9973 == 77 { r.sample(v["ops"].clone()); }
        let known = Date::from_truncated_julian(i(&v["known"]) as i32);

        // one curve at a time
        let mut t = FixingTable::new(known);
        for (n, op) in ops.iter().enumerate() {
            let pts = points(op);
            let got = guarded(|| Fixings::new(s(&op["id"]), &pts).and_then(|f| t.insert(s(&op["id"]), f)).is_ok());
            r.check(got == Ok(op["ok"].as_bool().unwrap()), "supply", &v, || format!("operation {}: accepted {:?}", n, got));
        }
        look(&mut r, &t, &v, "insert");

        // all at once, by either constructor: an error if anything would be rejected
        let all_ok = ops.iter().all(|o| o["ok"] == true);
        let owned: Vec<(String, Vec<(DateTime, f64)>)> = ops.iter().map(|o| (s(&o["id"]).to_string(), points(o))).collect();
        let slices: Vec<(&str, &[(DateTime, f64)])> = owned.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        let bulk = guarded(|| FixingTable::from_fixings(known, &slices).ok());
        let iter = guarded(|| FixingTable::from_iter_known_until(known, owned.iter().map(|(a, b)| (a.as_str(), b.as_slice()))).ok());
        for (route, b) in [("slice", bulk), ("iter", iter)] {
            match b {
                Ok(Some(t)) => {
                    r.check(all_ok, &format!("bulk-{}", route), &v, || "accepted".into());
                    if all_ok { look(&mut r, &t, &v, route); }
                }
                Ok(None) => { r.check(!all_ok, &format!("bulk-{}", route), &v, || "rejected".into()); }
                Err(p) => { r.fail(&format!("bulk-{}", route), &v, p); }
            }
        }

        // through text
        let text = guarded(|| serde_json::to_string(&t).unwrap());
        let back = guarded(|| serde_json::from_str::<FixingTable>(text.as_ref().unwrap()).map_err(|e| e.to_string()));
        match back {
            Ok(Ok(b)) => look(&mut r, &b, &v, "json"),
            other => r.fail("json", &v, format!("{:?}", other.map(|x| x.is_ok()))),
        }
        // text naming one moment twice; text written by hand in the documented form
        if ops.len() == 1 {
            let op = &ops[0];
            let doc = json!({"fixings_known_until": known.to_string(), "fixings_by_id": { s(&op["id"]): {"fixing_by_date":
                arr(&op["pts"]).iter().map(|p| json!([{"date": Date::from_truncated_julian(i(&p[0]) as i32).to_string(), "time_of_day": p[1]}, i(&p[2]) as f64 / 4.0])).collect::<Vec<_>>() }}});
            let got = guarded(|| serde_json::from_str::<RcFixingTable>(&doc.to_string()).ok());
            match got {
                Ok(Some(t)) => {
                    r.check(op["ok"] == true, "json-duplicate", &v, || "a moment named twice was accepted".into());
                    if op["ok"] == true { look(&mut r, &t, &v, "json-doc"); }
                }
                Ok(None) => { r.check(op["ok"] == false, "json-duplicate", &v, || "rejected".into()); }
                Err(p) => r.fail("json-duplicate", &v, p),
            }
        }
    });
    r
}

/// Records random histories. ins: output trace
pub fn record(ins: &[String], seed: u64, n: usize) -> Report {
    let mut r = Report::new();
    let mut rng = Rng::new(seed);
    let mut out: Vec<String> = vec![];
    let tods = ["Open", "EDSP", "Close"];
    for _ in 0..n {
        r.cases += 1;
        let known = rng.range(17990, 18010);
        out.push(json!({"op": "new", "known": known}).to_string());
        let mut t = FixingTable::new(Date::from_truncated_julian(known as i32));
        for _ in 0..rng.range(3, 12) {
            let id = format!("E{}", rng.below(5));
            let n_pts = rng.below(6);
            let pts: Vec<(i64, &str, i64)> = (0..n_pts).map(|_| (known + rng.range(-6, 6), *rng.pick(&tods), rng.range(1, 1000))).collect();
            let real: Vec<(DateTime, f64)> = pts.iter().map(|p| (DateTime::new(Date::from_truncated_julian(p.0 as i32), tod(p.1)), p.2 as f64)).collect();
            let ok = Fixings::new(&id, &real).and_then(|f| t.insert(&id, f)).is_ok();
            out.push(json!({"op": "supply", "id": id, "pts": pts, "ok": ok}).to_string());
            for _ in 0..8 {
                let (id, d, td) = if !pts.is_empty() && rng.below(2) == 0 {
                    let p = rng.pick(&pts); (id.clone(), p.0, p.1)
                } else { (format!("E{}", rng.below(6)), known + rng.range(-6, 6), *rng.pick(&tods)) };
                let (res, x) = match t.get(&id, DateTime::new(Date::from_truncated_julian(d as i32), tod(td))) {
                    Ok(Some(x)) => ("value", x as i64), Ok(None) => ("absent", 0), Err(_) => ("error", 0) };
                out.push(json!({"op": "get", "id": id, "day": d, "tod": td, "r": res, "v": x}).to_string());
            }
        }
    }
    r.nontrivial = r.cases;
    r.checks = out.len() as u64;
    r.sample(json!(out[..4.min(out.len())].to_vec()));
    std::fs::write(&ins[0], out.join("\n") + "\n").unwrap();
    r
}
