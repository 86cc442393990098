//! Replays CalCount.tla (P09) and CalStep.tla (P10).

use crate::util::*;
use quantmath::core::factories::Qrc;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn day(v: &Value) -> Date {
    Date::from_truncated_julian(i(v) as i32)
}

/// {kind, inner, hols, w} as in Calendar.tla
pub fn make_calendar(v: &Value, name: &str) -> RcCalendar {
    let hols: Vec<Date> = arr(&v["hols"]).iter().map(day).collect();
    let base = |kind: &str| -> RcCalendar {
        match kind {
            "every" => Qrc::new(Arc::new(EveryDayCalendar::new())),
            "weekday" => Qrc::new(Arc::new(WeekdayCalendar::new())),
            "holidays" => Qrc::new(Arc::new(WeekdayAndHolidayCalendar::new(name, &hols))),
            k => fatal(&format!("calendar kind {}", k)),
        }
    };
    if v["kind"] == "vol" {
        let w = i(&v["w"]) as f64 / 4.0;
        Qrc::new(Arc::new(VolatilityCalendar::new(name, base(s(&v["inner"])), w)))
    } else {
        base(s(&v["kind"]))
    }
}

fn calendars(world: &str) -> Vec<(Value, RcCalendar)> {
    let w: Value = serde_json::from_str(&std::fs::read_to_string(world).unwrap()).unwrap();
    arr(&w["cals"]).iter().enumerate()
        .map(|(n, c)| (c.clone(), make_calendar(c, &format!("C{}", n + 1)))).collect()
}

/// ins: world, counts
pub fn count(ins: &[String], seed: u64) -> Report {
    let mut r = Report::new();
    let cals = calendars(&ins[0]);
    let mut rng = Rng::new(seed);
    for (n, (v, c)) in cals.iter().enumerate() {
        let name = match s(&v["kind"]) { "every" => "ALL".to_string(), "weekday" => "WKD".to_string(), _ => format!("C{}", n + 1) };
        r.check(c.name() == name, "name", v, || c.name().to_string());
    }
    each_line(&ins[1], |v| {
        r.cases += 1;
        let c = &cals[i(&v["c"]) as usize - 1].1;
        let (f, t) = (day(&v["f"]), day(&v["t"]));
        if f != t { r.nontrivial += 1; }
        if r.cases % 9973 == 77 { r.sample(v.clone()); }
        let hol = v["hf"].as_bool().unwrap();
        let got = guarded(|| (c.is_holiday(f), c.day_weight(f), c.standard_basis()));
        let basis = i(&v["b4"]) as f64 / 4.0;
        let ok = match got {
            Ok((h, w, b)) => h == hol && w == i(&v["wf"]) as f64 / 4.0 && approx(b, basis, 1e-12, 0.0),
            _ => false,
        };
        r.check(ok, "day", &v, || format!("holiday, weight, basis: {:?}", got));
        for x in arr(&v["x"]) {
            let (ff, tf) = (i(&x[0]) as f64 / 4.0, i(&x[1]) as f64 / 4.0);
            let want = i(&x[2]) as f64 / 16.0;
            let got = guarded(|| c.count_business_days(f, ff, t, tf));
            let ok = got.as_ref().map(|g| (g - want).abs() < 1e-9).unwrap_or(false);
            r.check(ok, "count", &v, || format!("count from {}+{} to {}+{}: library {:?}, specification {}", f, ff, t, tf, got, want));
            let got = guarded(|| c.year_fraction(DateDayFraction::new(f, ff), DateDayFraction::new(t, tf)));
            let ok = got.as_ref().map(|g| (g - want / basis).abs() < 1e-11).unwrap_or(false);
            r.check(ok, "year-fraction", &v, || format!("year fraction from {}+{} to {}+{}: library {:?}, specification {}", f, ff, t, tf, got, want / basis));
            // the wrong way round there is nothing in between
            if f != t {
                let (a, b) = (rng.below(4) as f64 / 4.0, rng.below(4) as f64 / 4.0);
                let got = guarded(|| c.count_business_days(t, a, f, b));
                r.check(got == Ok(0.0), "count-reversed", &v, || format!("count from {}+{} back to {}+{}: {:?}", t, a, f, b, got));
            }
        }
    });
    r
}

/// ins: world, steps
pub fn step(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let cals = calendars(&ins[0]);
    each_line(&ins[1], |v| {
        r.cases += 1;
        r.nontrivial += 1;
        if r.cases % 5003 == 77 { r.sample(v.clone()); }
        let c = &cals[i(&v["c"]) as usize - 1].1;
        let f = day(&v["f"]);
        match s(&v["m"]) {
            "whole" => {
                let (k, fwd, want) = (i(&v["k"]) as i32, i(&v["s"]) > 0, day(&v["d"]));
                let got = guarded(|| c.step(f, k, fwd));
                r.check(got == Ok(want), "step", &v, || format!("step {} from {}: library {:?}, specification {}", k, f, got, want));
                let got = guarded(|| c.step_partial(f, k as f64, fwd));
                r.check(got == Ok(want), "step-partial-whole", &v, || format!("step {} from {}: library {:?}, specification {}", k, f, got, want));
                for t in arr(&v["near"]) {
                    let t = i(t) as f64 / 8.0;
                    let got = guarded(|| c.step_partial(f, t, fwd));
                    r.check(got == Ok(want), "step-partial-unweighted", &v, || format!("step {} from {}: library {:?}, specification {}", t, f, got, want));
                }
                if k == 0 || fwd == (k > 0) {
                    let rules: Vec<(&str, BusinessDays)> = if k == 0 {
                        vec![if fwd { ("next", BusinessDays::new_next(c.clone())) } else { ("prev", BusinessDays::new_prev(c.clone())) },
                             if fwd { ("step", BusinessDays::new_step(c.clone(), 0)) } else { ("back", BusinessDays::new_back(c.clone(), 0)) }]
                    } else if fwd { vec![("step", BusinessDays::new_step(c.clone(), k as u32))] }
                    else { vec![("back", BusinessDays::new_back(c.clone(), -k as u32))] };
                    for (name, rule) in rules {
                        let got = guarded(|| rule.apply(f));
                        r.check(got == Ok(want), "rule-business-days", &v, || format!("{} {} from {}: library {:?}, specification {}", name, k, f, got, want));
                    }
                }
            }
            "rule" => {
                let got = guarded(|| (ModifiedFollowing::new(c.clone()).apply(f), NullRule::new().apply(f),
                    BusinessDays::new_next(c.clone()).apply(f), BusinessDays::new_prev(c.clone()).apply(f)));
                let want = (day(&v["mf"]), f, day(&v["next"]), day(&v["prev"]));
                r.check(got == Ok(want), "rule", &v, || format!("modified following, null, next, previous of {}: library {:?}, specification {:?}", f, got, want));
            }
            "part" => {
                let fwd = i(&v["s"]) > 0;
                for x in arr(&v["x"]) {
                    let t = i(&x[0]) as f64 / 8.0;
                    let allowed: Vec<Date> = arr(&x[1]).iter().map(day).collect();
                    let signed = if fwd { t } else { -t };
                    let got = guarded(|| c.step_partial(f, signed, fwd));
                    let ok = got.as_ref().map(|g| allowed.contains(g)).unwrap_or(false);
                    r.check(ok, "step-partial", &v, || format!("step {} from {}: library {:?}, specification {:?}", signed, f, got, allowed));
                    if t == t.floor() {
                        let got = guarded(|| c.step(f, signed as i32, fwd));
                        let ok = got.as_ref().map(|g| allowed.contains(g)).unwrap_or(false);
                        r.check(ok, "step-vol", &v, || format!("step {} from {}: library {:?}, specification {:?}", signed, f, got, allowed));
                    }
                }
            }
            m => fatal(m),
        }
    });
    let _ = json!(null);
    r
}
