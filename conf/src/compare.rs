//! Replays ReportCompare.tla (P19): sets of results that differ in a few places.

use crate::util::*;
use quantmath::facade::c_interface::*;
use quantmath::facade::{assert_approx_eq_reports, reports_from_json};
use serde_json::{json, Value};
use std::ffi::CString;

/// The value that goes with a place, and the tolerance there.
struct Places<'a> { tol: &'a Value, bumps: &'a Value }

impl<'a> Places<'a> {
    fn number(&self, tol: f64, place: &str, k: &Value) -> f64 {
        let h = place.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
        let unit = if tol == 0.0 { 0.01 } else { tol };
        ((h % 4001) as f64 - 2000.0) / 64.0 + i(k) as f64 * unit / 4.0
    }
    fn json(&self, r: &Value, at: &str) -> Value {
        let kind = s(&r["kind"]);
        if kind == "tb" {
            let t = rat(&self.tol["price"]);
            return json!({"TimeBumpedReport": {"price": self.number(t, &format!("{}p", at), &r["nums"][0]),
                "theta": self.number(t, &format!("{}t", at), &r["nums"][1]), "subreports": self.all(&r["subs"], at)}});
        }
        let bump = rat(&self.bumps[i(&r["bump"]) as usize - 1]);
        let (tag, one, two, t) = if kind == "dg" { ("DeltaGammaReport", "delta", "gamma", rat(&self.tol["unit"])) }
            else { ("VegaVolgaReport", "vega", "volga", rat(&self.tol["ccy"])) };
        let mut rows = json!({});
        // TLC writes an empty function as an empty sequence
        for (id, v) in r["rows"].as_object().into_iter().flatten() {
            rows[id] = json!({one: self.number(t / bump.abs(), &format!("{}{}1", at, id), &v[0]),
                two: self.number(t / bump.abs() / bump.abs(), &format!("{}{}2", at, id), &v[1])});
        }
        json!({tag: {"bumpsize": bump, "results": rows}})
    }
    fn all(&self, rs: &Value, at: &str) -> Value {
        Value::Array(arr(rs).iter().map(|r| self.json(r, &format!("{}/", at))).collect())
    }
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let def: Value = serde_json::from_str(&std::fs::read_to_string(&ins[0]).unwrap()).unwrap();
    each_line(&ins[1], |line| {
        r.cases += 1;
        let tol = &def["tols"][i(&line["tol"]) as usize - 1];
        let p = Places { tol, bumps: &def["bumps"] };
        let (a, b) = (p.all(&line["left"], "").to_string(), p.all(&line["right"], "").to_string());
        let want = line["same"].as_bool().unwrap();
        if line["left"] != line["right"] {
            r.nontrivial += 1;
        }
        r.count(if want { "same" } else { "different" });
        let t = (rat(&tol["price"]), rat(&tol["ccy"]), rat(&tol["unit"]));
        let case = json!({"left": a, "right": b, "tolerances": [t.0, t.1, t.2]});
        for (x, y, way) in &[(&a, &b, "forwards"), (&b, &a, "backwards")] {
            let got = guarded(|| {
                let (x, y) = (reports_from_json(&mut x.as_bytes()).unwrap(), reports_from_json(&mut y.as_bytes()).unwrap());
                assert_approx_eq_reports(&x, &y, t.0, t.1, t.2).map_err(|e| e.to_string())
            });
            r.check(got.is_ok(), "panic", &case, || format!("comparing panics: {:?}", got));
            if let Ok(got) = got {
                r.check(got.is_ok() == want, if want { "same-refused" } else { "difference-missed" }, &case, || {
                    format!("{}: the library says {:?}, the specification {}", way, got, if want { "same" } else { "different" })
                });
                r.check(got != Err(String::new()), "no-message", &case, || "a difference without a description".to_string());
            }
        }
        // and through handles
        let c = |x: &str| qm_reports_from_json_string(CString::new(x).unwrap().as_ptr());
        let h = qm_assert_approx_eq_reports(c(&a), c(&b), t.0, t.1, t.2);
        let said = !qm_is_error(h);
        qm_free_handle(h);
        r.check(said == want, if want { "same-refused" } else { "difference-missed" }, &case, || format!("through handles: the library says {}", said));
        r.sample(line);
    });
    r
}
