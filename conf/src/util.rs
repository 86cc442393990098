//! Shared plumbing: reading the behaviours TLC wrote, recording verdicts, comparing numbers.

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Reads one JSON value per line. TLC's CSV module prints strings quoted, so a line may be a
/// JSON document inside a string.
pub fn each_line<F: FnMut(Value)>(path: &str, mut f: F) {
    let file = File::open(path).unwrap_or_else(|e| fatal(&format!("cannot open {}: {}", path, e)));
    for line in BufReader::new(file).lines() {
        let line = line.unwrap();
        let t = line.trim();
        if t.is_empty() {
            continue;
        }
        let mut v: Value = serde_json::from_str(t)
            .unwrap_or_else(|e| fatal(&format!("bad line in {}: {} in {}", path, e, t)));
        if let Value::String(ref s) = v {
            let inner: Value = serde_json::from_str(s)
                .unwrap_or_else(|e| fatal(&format!("bad inner line in {}: {} in {}", path, e, s)));
            v = inner;
        }
        f(v);
    }
}

pub fn fatal(msg: &str) -> ! {
    eprintln!("conf: error: {}", msg);
    std::process::exit(2);
}

/// Verdicts of one replay.
pub struct Report {
    pub cases: u64,
    pub checks: u64,
    pub nontrivial: u64,
    pub n_fails: u64,
    pub fails: Vec<Value>,
    pub samples: Vec<Value>,
    pub counts: std::collections::BTreeMap<String, u64>,
}

impl Report {
    pub fn new() -> Report {
        Report { cases: 0, checks: 0, nontrivial: 0, n_fails: 0, fails: vec![], samples: vec![],
            counts: Default::default() }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    /// key identifies the kind of failure (used by the known-findings file).
    pub fn fail(&mut self, key: &str, case: &Value, detail: String) {
        self.n_fails += 1;
        let same = self.fails.iter().filter(|f| f["key"] == key).count();
        if same < 5 && self.fails.len() < 400 {
            self.fails.push(json!({"key": key, "case": case, "detail": detail}));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, case: &Value, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.fail(key, case, detail());
        }
        ok
    }
    /// Compares two numbers with a relative tolerance (scale at least `floor`).
    pub fn close(&mut self, got: f64, want: f64, rel: f64, floor: f64, key: &str, case: &Value, what: &str) -> bool {
        let ok = approx(got, want, rel, floor);
        self.check(ok, key, case, || format!("{}: library says {:?}, specification says {:?}", what, got, want))
    }
    /// Takes in the verdicts of another process.
    pub fn add(&mut self, v: &Value) {
        self.cases += v["cases"].as_u64().unwrap();
        self.checks += v["checks"].as_u64().unwrap();
        self.nontrivial += v["nontrivial"].as_u64().unwrap();
        self.n_fails += v["n_fails"].as_u64().unwrap();
        self.fails.extend(arr(&v["fails"]).iter().cloned());
        for x in arr(&v["samples"]) { self.sample(x.clone()); }
        for (k, n) in v["counts"].as_object().unwrap() { *self.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
    }
    pub fn write(&self, path: &str) {
        let v = json!({"cases": self.cases, "checks": self.checks, "nontrivial": self.nontrivial,
            "n_fails": self.n_fails, "fails": self.fails, "samples": self.samples, "counts": self.counts});
        std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}

pub fn approx(got: f64, want: f64, rel: f64, floor: f64) -> bool {
    if got.is_nan() || want.is_nan() {
        return got.is_nan() && want.is_nan();
    }
    if got == want {
        return true;
    }
    if got.is_infinite() || want.is_infinite() {
        return false;
    }
    (got - want).abs() <= rel * want.abs().max(got.abs()).max(floor)
}

/// Runs code under test; a panic is an observation, not a crash of the harness.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| fatal(&format!("expected an integer, got {}", v)))
}
pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| fatal(&format!("expected a string, got {}", v)))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| fatal(&format!("expected an array, got {}", v)))
}
/// A rational <<n, d>> as written by the specifications.
pub fn rat(v: &Value) -> f64 {
    let a = arr(v);
    i(&a[0]) as f64 / i(&a[1]) as f64
}

/// A small deterministic generator (xorshift*), so recorded runs depend on VERIF_SEED only.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

/// Equal JSON, numbers up to the last few bits (the JSON parser of this build does not read
/// every number exactly).
pub fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || approx(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-14, 0.0),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_json(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same_json(v, w))),
        _ => a == b,
    }
}
