//! Replays Black76.tla (P20).

use crate::term::eval;
use crate::util::*;
use quantmath::math::optionpricing::Black76;
use serde_json::json;
use std::collections::HashMap;

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let b = Black76::new().unwrap_or_else(|_| fatal("Black76"));
    let mut grid: HashMap<Vec<i64>, (f64, f64, f64)> = HashMap::new();
    each_line(&ins[0], |v| {
        r.cases += 1;
        let (f, k, sd, d) = (eval(&v["f"]), eval(&v["k"]), eval(&v["s"]), eval(&v["d"]));
        let case = json!({"forward": f, "strike": k, "sqrt_variance": sd, "df": d});
        if v["certain"] == false { r.nontrivial += 1; }
        if r.cases % 9973 == 77 { r.sample(case.clone()); }
        let got = guarded(|| (b.call_price(d, f, k, sd), b.put_price(d, f, k, sd)));
        let (call, put) = match got { Ok(g) => g, Err(p) => { r.fail("panic", &case, p); return } };
        let scale = d * f.max(k);
        let tol = 1e-9 * scale;
        let (wc, wp) = (eval(&v["call"]), eval(&v["put"]));
        r.check((call - wc).abs() <= tol, "call", &case, || format!("call: library {:?}, specification {:?}", call, wc));
        r.check((put - wp).abs() <= tol, "put", &case, || format!("put: library {:?}, specification {:?}", put, wp));
        r.check((call - put - d * (f - k)).abs() <= tol, "parity", &case, || format!("call {} put {}", call, put));
        let t = 1e-10 * scale;
        r.check(call >= (d * (f - k)).max(0.0) - t && call <= d * f + t, "call-bounds", &case, || format!("call {}", call));
        r.check(put >= (d * (k - f)).max(0.0) - t && put <= d * k + t, "put-bounds", &case, || format!("put {}", put));
        grid.insert(arr(&v["at"]).iter().map(i).collect(), (call, put, scale));
    });
    // one notch up in each direction: forward, strike, deviation, discount factor
    let moves = [(1.0, -1.0), (-1.0, 1.0), (1.0, 1.0), (1.0, 1.0)];
    for (at, (call, put, scale)) in &grid {
        for (n, (mc, mp)) in moves.iter().enumerate() {
            let mut to = at.clone();
            to[n] += 1;
            if let Some((c2, p2, s2)) = grid.get(&to) {
                let t = 1e-10 * scale.max(*s2);
                let case = json!({"at": at, "raise": n});
                r.check((c2 - call) * mc >= -t, "call-monotone", &case, || format!("{} then {}", call, c2));
                r.check((p2 - put) * mp >= -t, "put-monotone", &case, || format!("{} then {}", put, p2));
            }
        }
    }
    r
}
