//! Replays Interp.tla (P15).

use crate::term::{bind, eval_in};
use crate::util::*;
use quantmath::core::qm;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::math::interpolation::*;
use serde_json::{json, Value};

pub fn extrap(v: &Value) -> Extrap {
    match s(v) {
        "Flat" => Extrap::Flat,
        "Natural" => Extrap::Natural,
        "NotANumber" => Extrap::NotANumber,
        "Zero" => Extrap::Zero,
        "Throw" => Extrap::Throw,
        _ => fatal("extrapolation"),
    }
}

static NULL: Value = Value::Null;

fn judge<'a>(r: &mut Report, env: &mut Vec<(&'a str, f64)>, got: Result<Result<f64, qm::Error>, String>, want: &'a Value, scale: f64, key: &str, v: &Value, q: f64) {
    let say = format!("{:?}", got.as_ref().map(|g| g.as_ref().map_err(|_| "error")));
    let v_want = eval_in(&NULL, &want["v"], env);
    let ok = match (got, s(&want["r"])) {
        (Ok(Err(_)), "err") => true,
        (Ok(Ok(x)), "nan") => x.is_nan(),
        (Ok(Ok(x)), "num") => approx(x, v_want, 1e-9, scale),
        _ => false,
    };
    r.check(ok, key, v, || format!("at {}: library {}, specification {} {}", q, say, s(&want["r"]), v_want));
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    each_line(&ins[0], |mut v| {
        r.cases += 1;
        let qs = v["q"].take();
        let qs = arr(&qs);
        let (lets, nothing) = (v["lets"].take(), v["nothing"].take());
        let mut env = bind(&NULL, &lets);
        let xs: Vec<i64> = arr(&v["x"]).iter().map(i).collect();
        let ys: Vec<f64> = arr(&v["y"]).iter().map(|y| i(y) as f64).collect();
        let (l, rt) = (extrap(&v["left"]), extrap(&v["right"]));
        let (ok, sok) = (v["ok"] == true, v["spline_ok"] == true);
        if ok { r.nontrivial += 1; }
        if r.cases % 997 == 77 { r.sample(v.clone()); }
        let scale = ys.iter().fold(1.0f64, |a, y| a.max(y.abs()));

        // the specification's own spline meets the definition of one
        for t in arr(&nothing) {
            let z = eval_in(&NULL, t, &mut env);
            if !(z.abs() < 1e-9 * scale) { fatal(&format!("spline of the specification off by {}", z)) }
        }

        // numbers, under several changes of scale of the abscissa
        for (f, (mul, add)) in [(1.0, 0.0), (0.037, -3.3), (17.5, 1000.25)].iter().enumerate() {
            let key = |k: &str| if f == 0 { k.to_string() } else { format!("{}-scaled", k) };
            let pts: Vec<(f64, f64)> = xs.iter().zip(&ys).map(|(x, y)| (*x as f64 * mul + add, *y)).collect();
            let hole = i(&v["hole"]) as usize;
            let pts: Vec<(f64, f64)> = pts.iter().enumerate().map(|(n, p)| if n + 1 == hole { (f64::NAN, p.1) } else { *p }).collect();
            let lin = guarded(|| Linear::new(&pts, l, rt));
            let spl = guarded(|| CubicSpline::new(&pts, l, rt));
            r.check(lin.as_ref().map(|x| x.is_ok()) == Ok(ok), &key("linear-new"), &v, || format!("accepted {:?}", lin.as_ref().map(|x| x.is_ok())));
            r.check(spl.as_ref().map(|x| x.is_ok()) == Ok(sok), &key("spline-new"), &v, || format!("accepted {:?}", spl.as_ref().map(|x| x.is_ok())));
            r.check(validate_abscissae(&pts).is_ok() == ok, &key("validate"), &v, || "validate".into());
            let doc = json!({"left": v["left"], "right": v["right"], "points": pts});
            // (a document has no way to say that one is not a number, but may leave it out)
            let jl = guarded(|| serde_json::from_value::<Linear<f64>>(doc.clone()));
            let js = guarded(|| serde_json::from_value::<CubicSpline<f64>>(doc.clone()));
            r.check(jl.as_ref().map(|x| x.is_ok()) == Ok(ok), &key("linear-json"), &v, || format!("accepted {:?}", jl.as_ref().map(|x| x.is_ok())));
            r.check(js.as_ref().map(|x| x.is_ok()) == Ok(sok), &key("spline-json"), &v, || format!("accepted {:?}", js.as_ref().map(|x| x.is_ok())));
            let fly = FlyweightLinear::<f64>::new(l, rt);
            // forwards and then backwards, so that an answer depending on earlier queries shows
            let order: Vec<&Value> = qs.iter().chain(qs.iter().rev()).collect();
            for q in order {
                let x = i(&q[0]) as f64 / 4.0 * mul + add;
                // exact hits must be hit exactly
                let x = xs.iter().position(|p| 4 * p == i(&q[0])).map_or(x, |n| pts[n].0);
                if let Ok(Ok(lin)) = &lin { judge(&mut r, &mut env, guarded(|| lin.interpolate(x)), &q[1], scale, &key("linear"), &v, x); }
                if let Ok(Ok(lin)) = &jl { judge(&mut r, &mut env, guarded(|| lin.interpolate(x)), &q[1], scale, &key("linear-read"), &v, x); }
                if ok { judge(&mut r, &mut env, guarded(|| fly.interpolate(x, &pts)), &q[1], scale, &key("flyweight"), &v, x); }
                if let Ok(Ok(spl)) = &spl { judge(&mut r, &mut env, guarded(|| spl.interpolate(x)), &q[2], scale * 10.0, &key("spline"), &v, x); }
                if let Ok(Ok(spl)) = &js { judge(&mut r, &mut env, guarded(|| spl.interpolate(x)), &q[2], scale * 10.0, &key("spline-read"), &v, x); }
            }
            // an exact hit gives the point's own ordinate, to the bit
            if let (Ok(Ok(lin)), true) = (&lin, ok) {
                for p in &pts { r.check(lin.interpolate(p.0).ok() == Some(p.1), &key("linear-knot"), &v, || format!("at {}", p.0)); }
            }
            if let (Ok(Ok(spl)), true) = (&spl, sok) {
                for p in &pts { r.check(spl.interpolate(p.0).ok() == Some(p.1), &key("spline-knot"), &v, || format!("at {}", p.0)); }
            }
        }

        if i(&v["hole"]) != 0 { return }

        // integers and dates: a quarter of the specification's unit is one day
        let d0 = 18000;
        let dates: Vec<(Date, f64)> = xs.iter().zip(&ys).map(|(x, y)| (Date::from_truncated_julian(d0 + 4 * *x as i32), *y)).collect();
        let ints: Vec<(i32, f64)> = xs.iter().zip(&ys).map(|(x, y)| (4 * *x as i32 - 7, *y)).collect();
        let fracs: Vec<(DateDayFraction, f64)> = xs.iter().zip(&ys).map(|(x, y)| (DateDayFraction::new(Date::from_truncated_julian(d0 + *x as i32), 0.25), *y)).collect();
        let dl = guarded(|| Linear::new(&dates, l, rt));
        let ds = guarded(|| CubicSpline::new(&dates, l, rt));
        let il = guarded(|| Linear::new(&ints, l, rt));
        let fl = guarded(|| Linear::new(&fracs, l, rt));
        for (k, got, want) in [("dates-linear-new", dl.as_ref().map(|x| x.is_ok()), ok), ("dates-spline-new", ds.as_ref().map(|x| x.is_ok()), sok),
                               ("ints-linear-new", il.as_ref().map(|x| x.is_ok()), ok), ("fractions-linear-new", fl.as_ref().map(|x| x.is_ok()), ok)] {
            r.check(got == Ok(want), k, &v, || format!("accepted {:?}", got));
        }
        for q in qs {
            let n = i(&q[0]) as i32;
            let d = Date::from_truncated_julian(d0 + n);
            if let Ok(Ok(x)) = &dl { judge(&mut r, &mut env, guarded(|| x.interpolate(d)), &q[1], scale, "dates-linear", &v, n as f64); }
            if let Ok(Ok(x)) = &ds { judge(&mut r, &mut env, guarded(|| x.interpolate(d)), &q[2], scale * 10.0, "dates-spline", &v, n as f64); }
            if let Ok(Ok(x)) = &il { judge(&mut r, &mut env, guarded(|| x.interpolate(n - 7)), &q[1], scale, "ints-linear", &v, n as f64); }
            let (whole, part) = (n.div_euclid(4), n.rem_euclid(4));
            // quarter 3 of the unit lands on the next day: fractions stay below one
            let (whole, part) = if part == 3 { (whole + 1, 0) } else { (whole, part + 1) };
            let f = DateDayFraction::new(Date::from_truncated_julian(d0 + whole), part as f64 / 4.0);
            if let Ok(Ok(x)) = &fl { judge(&mut r, &mut env, guarded(|| x.interpolate(f)), &q[1], scale, "fractions-linear", &v, n as f64); }
        }
    });
    r
}
