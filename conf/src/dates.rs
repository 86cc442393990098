//! Replays Dates.tla and DateText.tla (P11).

use crate::util::*;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::math::interpolation::Interpolable;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::str::FromStr;

fn tod(s: &str) -> TimeOfDay {
    match s {
        "Open" => TimeOfDay::Open,
        "EDSP" => TimeOfDay::EDSP,
        "Close" => TimeOfDay::Close,
        _ => fatal("time of day"),
    }
}

fn sign(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// ins: days, texts, tables
pub fn run(ins: &[String], seed: u64) -> Report {
    let mut r = Report::new();
    let mut days: Vec<(i32, i32, i32, i32)> = vec![];
    each_line(&ins[0], |v| {
        assert_eq!(i(&v["n"]), days.len() as i64 + 1);
        days.push((i(&v["y"]) as i32, i(&v["m"]) as i32, i(&v["d"]) as i32, i(&v["w"]) as i32));
    });
    let names = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
    let mut rng = Rng::new(seed);
    let n_days = days.len() as i32;
    for n in 1..=n_days {
        let (y, m, d, w) = days[(n - 1) as usize];
        let case = json!({"n": n, "y": y, "m": m, "d": d, "w": w});
        r.cases += 1;
        r.nontrivial += 1;
        if n % 30011 == 5 {
            r.sample(case.clone());
        }
        let one = guarded(|| {
            let mut bad: Vec<(&str, String)> = vec![];
            let date = Date::from_truncated_julian(n);
            if date.ymd() != (y, m, d) { bad.push(("ymd", format!("{:?}", date.ymd()))); }
            let back = Date::from_ymd(y, m, d);
            if back != date || back.truncated_julian() != n { bad.push(("from_ymd", format!("{}", back.truncated_julian()))); }
            if !date.is_valid() { bad.push(("valid", "not valid".into())); }
            if date.day_of_week() != w { bad.push(("weekday", format!("{}", date.day_of_week()))); }
            let iso = format!("{:04}-{:02}-{:02}", y, m, d);
            if date.to_string() != iso { bad.push(("display", date.to_string())); }
            let dbg = format!("{} {}", names[w as usize], iso);
            if format!("{:?}", date) != dbg { bad.push(("debug", format!("{:?}", date))); }
            match Date::from_str(&iso) {
                Ok(p) if p == date => (),
                other => bad.push(("parse", format!("{:?}", other.map(|d| d.truncated_julian())))),
            }
            let js = serde_json::to_string(&date).unwrap();
            if js != format!("\"{}\"", iso) { bad.push(("serialize", js.clone())); }
            match serde_json::from_str::<Date>(&js) {
                Ok(p) if p == date => (),
                _ => bad.push(("deserialize", js)),
            }
            bad
        });
        r.checks += 9;
        match one {
            Ok(bad) => for (k, det) in bad { r.fail(&format!("date-{}", k), &case, det); },
            Err(p) => r.fail("date-panic", &case, p),
        }
        // documented: a day past the end of its month counts on into the next
        for over in d + 1..32 {
            let last = n == n_days || days[n as usize].1 != m;
            if !last { break; }
            let got = guarded(|| Date::from_ymd(y, m, over).truncated_julian());
            r.check(got == Ok(n + over - d), "date-overflow", &case, || format!("{}-{}-{}: {:?}", y, m, over, got));
        }
        // arithmetic and order against another day of the behaviour
        for j in 0..3 {
            let k = if j == 0 { (n - 1 + 400).min(n_days) } else { rng.range(1, n_days as i64) as i32 };
            let ok = guarded(|| {
                let a = Date::from_ymd(y, m, d);
                let (y2, m2, d2, _) = days[(k - 1) as usize];
                let b = Date::from_ymd(y2, m2, d2);
                let mut c = a;
                c += k - n;
                let mut e = b;
                e -= k - n;
                b - a == k - n && a + (k - n) == b && b - (k - n) == a && c == b && e == a
                    && (a < b) == (n < k) && (a == b) == (n == k) && (a > b) == (n > k)
                    && a.interp_diff(b) == (k - n) as f64 && a.interp_cmp(b) == n.cmp(&k)
                    && (DateTime::new(a, TimeOfDay::EDSP) + (k - n)) == DateTime::new(b, TimeOfDay::EDSP)
                    && (DateDayFraction::new(a, 0.25) + (k - n)) == DateDayFraction::new(b, 0.25)
                    && { let mut x = DateTime::new(a, TimeOfDay::Close); x += k - n; x == DateTime::new(b, TimeOfDay::Close) }
                    && { let mut x = DateDayFraction::new(a, 0.75); x += k - n; x.date() == b && x.day_fraction() == 0.75 }
            });
            r.check(ok == Ok(true), "date-arithmetic", &json!({"n": n, "k": k}), || format!("{:?}", ok));
        }
    }
    // just outside the supported range
    for n in [-1, 0, n_days + 1, n_days + 2, i32::MIN, i32::MAX] {
        let v = guarded(|| Date::from_truncated_julian(n).is_valid());
        r.check(v == Ok(false), "date-range", &json!({"n": n}), || format!("{:?}", v));
    }
    r.check(guarded(|| Date::from_nil().is_valid()) == Ok(false), "date-range", &json!("nil"), || "nil is valid".into());

    each_line(&ins[1], |v| {
        let text = s(&v["text"]).to_string();
        let class = s(&v["class"]).to_string();
        r.cases += 1;
        if class != "reject" { r.nontrivial += 1; }
        r.count(&class);
        if class == "accept" || text.contains("x-") { r.sample(v.clone()); }
        let want = (i(&v["y"]) as i32, i(&v["m"]) as i32, i(&v["d"]) as i32);
        for route in ["from_str", "json"] {
            let got = guarded(|| if route == "from_str" {
                Date::from_str(&text).map_err(|_| ()).map(|d| d.ymd())
            } else {
                serde_json::from_str::<Date>(&serde_json::to_string(&text).unwrap()).map_err(|_| ()).map(|d| d.ymd())
            });
            let ok = match (&got, class.as_str()) {
                (Ok(Ok(g)), "accept") | (Ok(Ok(g)), "lenient") => *g == want,
                (Ok(Err(())), "lenient") | (Ok(Err(())), "reject") => true,
                _ => false,
            };
            r.check(ok, &format!("text-{}-{}", class, if got.is_err() { "panic" } else { "value" }), &v,
                || format!("{} of {:?} gives {:?}", route, text, got));
        }
    });
    for bad in ["5", "null", "{}", "[2018,5,3]", "\"\"", "true"] {
        let got = guarded(|| serde_json::from_str::<Date>(bad).is_err());
        r.check(got == Ok(true), "json-kind", &json!(bad), || format!("{:?}", got));
    }

    each_line(&ins[2], |v| {
        r.cases += 1;
        r.nontrivial += 1;
        let (a, b) = (Date::from_truncated_julian(i(&v["a"]) as i32), Date::from_truncated_julian(i(&v["b"]) as i32));
        let want = i(&v["cmp"]);
        if v["kind"] == "datetime" {
            let x = DateTime::new(a, tod(s(&v["p"])));
            let y = DateTime::new(b, tod(s(&v["q"])));
            r.check(sign(x.cmp(&y)) == want && x.partial_cmp(&y).map(sign) == Some(want) && (x == y) == (want == 0)
                && (x < y) == (want < 0) && (x <= y) == (want <= 0), "moment-order", &v, || format!("{:?}", x.cmp(&y)));
            let text = x.to_string();
            r.check(text == format!("{}/{}", a, s(&v["p"])), "moment-text", &v, || text.clone());
            let back: Result<DateTime, _> = serde_json::from_str(&serde_json::to_string(&x).unwrap());
            r.check(back.ok() == Some(x), "moment-json", &v, || "does not read back".into());
        } else {
            let x = DateDayFraction::new(a, i(&v["p"]) as f64 / 8.0);
            let y = DateDayFraction::new(b, i(&v["q"]) as f64 / 8.0);
            r.check(sign(x.cmp(&y)) == want && sign(x.interp_cmp(y)) == want && (x == y) == (want == 0)
                && (x < y) == (want < 0) && x.max(y) == (if want > 0 { x } else { y }), "fraction-order", &v, || format!("{:?}", x.cmp(&y)));
            let diff = x.interp_diff(y);
            r.check(diff == i(&v["diff8"]) as f64 / 8.0, "fraction-diff", &v, || format!("{}", diff));
            let back: Result<DateDayFraction, _> = serde_json::from_str(&serde_json::to_string(&x).unwrap());
            r.check(back.ok() == Some(x), "fraction-json", &v, || "does not read back".into());
        }
    });
    for f in [-0.1, 1.0, 1.5] {
        let got = guarded(|| DateDayFraction::new(Date::from_ymd(2018, 1, 1), f));
        r.check(got.is_err(), "fraction-range", &json!(f), || "accepted".into());
    }
    let _: Value = json!(null);
    r
}
