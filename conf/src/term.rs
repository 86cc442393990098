//! Evaluates the terms of Terms.tla. Knows nothing of QuantMath.

use crate::util::{fatal, i};
use serde_json::Value;

extern "C" {
    fn erfc(x: f64) -> f64;
}

pub fn phi(x: f64) -> f64 {
    0.5 * unsafe { erfc(-x / std::f64::consts::SQRT_2) }
}

pub fn eval(t: &Value) -> f64 {
    eval_in(&Value::Null, t, &mut vec![])
}

/// With the definitions [n, p, b] that its calls refer to.
pub fn eval_with(defs: &Value, t: &Value) -> f64 {
    eval_in(defs, t, &mut vec![])
}

/// The values of the names bound in turn by [[name, term]...].
pub fn bind<'a>(defs: &'a Value, lets: &'a Value) -> Vec<(&'a str, f64)> {
    bind_after(vec![], defs, lets)
}

/// Likewise, some names being bound already.
pub fn bind_after<'a>(mut env: Vec<(&'a str, f64)>, defs: &'a Value, lets: &'a Value) -> Vec<(&'a str, f64)> {
    for l in lets.as_array().unwrap_or_else(|| fatal("bindings")) {
        let v = eval_in(defs, &l[1], &mut env);
        env.push((l[0].as_str().unwrap(), v));
    }
    env
}

pub fn eval_in<'a>(defs: &'a Value, t: &'a Value, env: &mut Vec<(&'a str, f64)>) -> f64 {
    let a = match t.as_array() {
        Some(a) => a,
        None => fatal(&format!("not a term: {}", t)),
    };
    let mut x = |n: usize| eval_in(defs, &a[n], env);
    match a[0].as_str().unwrap_or("?") {
        "c" => i(&a[1]) as f64 / i(&a[2]) as f64,
        "sci" => format!("{}e{}", i(&a[1]), i(&a[2])).parse().unwrap(),
        "+" => x(1) + x(2),
        "-" => x(1) - x(2),
        "*" => x(1) * x(2),
        "/" => x(1) / x(2),
        "exp" => x(1).exp(),
        "ln" => x(1).ln(),
        "sqrt" => x(1).sqrt(),
        "sq" => { let v = x(1); v * v }
        "max" => x(1).max(x(2)),
        "min" => x(1).min(x(2)),
        "ceil" => x(1).ceil(),
        "N" => phi(x(1)),
        "ge" => if x(1) >= x(2) { x(3) } else { x(4) },
        "let" => {
            let v = x(2);
            env.push((a[1].as_str().unwrap(), v));
            let b = eval_in(defs, &a[3], env);
            env.pop();
            b
        }
        "call" => {
            let v = x(2);
            let d = defs.as_array().and_then(|d| d.iter().find(|d| d["n"] == a[1])).unwrap_or_else(|| fatal(&format!("undefined {}", a[1])));
            eval_in(defs, &d["b"], &mut vec![(d["p"].as_str().unwrap(), v)])
        }
        "v" => {
            let name = a[1].as_str().unwrap();
            match env.iter().rev().find(|e| e.0 == name) {
                Some(e) => e.1,
                None => fatal(&format!("unbound {}", name)),
            }
        }
        op => fatal(&format!("unknown operator {}", op)),
    }
}
