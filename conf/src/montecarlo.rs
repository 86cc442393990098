//! Replays MonteCarlo.tla (P03): Monte-Carlo pricers under bumps, restores and the passage of time.
//! The random numbers a pricer has drawn are found out by looking at its paths at several flat vols.

use crate::calendars::{day, make_calendar};
use crate::curves::read;
use crate::markets::*;
use crate::reports::time_bump;
use crate::risk::{bits, make_bump, Got};
use crate::term::{eval_in, eval_with};
use crate::util::*;
use crate::vols::judge_in;
use ndarray::{Array2, Array3, ArrayView2};
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::fixings::{FixingTable, RcFixingTable};
use quantmath::dates::datetime::DateDayFraction;
use quantmath::instruments::{DependencyContext, MonteCarloContext, PricingContext, RcInstrument};
use quantmath::models::blackdiffusion::*;
use quantmath::models::{MonteCarloModel, MonteCarloModelFactory, MonteCarloTimeline, RcMonteCarloModelFactory};
use quantmath::pricers::montecarlo::{MonteCarloPricer, MonteCarloPricerFactory};
use quantmath::pricers::PricerFactory;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::{MarketData, RcMarketData};
use quantmath::risk::{Bumpable, BumpablePricingContext, Pricer, Saveable};
use serde_json::Value;
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};

const PATHS: usize = 30;
/// The flat vols at which paths are looked at: as many as there can be steps to an observation.
const LEVELS: [f64; 6] = [0.08, 0.16, 0.24, 0.32, 0.4, 0.48];

fn said<T>(x: Result<T, qm::Error>) -> Result<T, String> { x.map_err(|e| e.to_string()) }

/// What was seen of the model inside a pricer.
#[derive(Default)]
struct Tape { paths: Option<Array2<f64>>, quantities: Option<Array2<f64>>, levels: Vec<Array2<f64>>, built: usize }
type Shared = Arc<Mutex<Tape>>;

/// The model the library makes, with a window in it.
#[derive(Clone)]
struct Seen { inner: Box<dyn MonteCarloModel>, tape: Shared }

impl MonteCarloContext for Seen {
    fn paths(&self, x: &RcInstrument) -> Result<ArrayView2<f64>, qm::Error> {
        let p = self.inner.paths(x)?;
        self.tape.lock().unwrap().paths = Some(p.to_owned());
        Ok(p)
    }
    fn evaluate_flows(&self, q: ArrayView2<f64>) -> Result<f64, qm::Error> {
        self.tape.lock().unwrap().quantities = Some(q.to_owned());
        self.inner.evaluate_flows(q)
    }
    fn pricing_context(&self) -> &dyn PricingContext { self.inner.pricing_context() }
}

impl Bumpable for Seen {
    fn bump(&mut self, b: &Bump, s: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> { self.inner.bump(b, s) }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { self.inner.dependencies() }
    fn context(&self) -> &dyn PricingContext { self.inner.as_bumpable().context() }
    fn new_saveable(&self) -> Box<dyn Saveable> { self.inner.new_saveable() }
    fn restore(&mut self, s: &dyn Saveable) -> Result<(), qm::Error> { self.inner.restore(s) }
}

impl MonteCarloModel for Seen {
    fn as_mc_context(&self) -> &dyn MonteCarloContext { self }
    fn as_bumpable(&self) -> &dyn Bumpable { self }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable { self }
    fn raw_market_data(&self) -> &MarketData { self.inner.raw_market_data() }
}

struct Window { inner: BlackDiffusionFactory, tape: Shared }
impl fmt::Debug for Window {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.inner) }
}
impl serde::Serialize for Window {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.inner.serialize(s) }
}
impl TypeId for Window {
    fn get_type_id(&self) -> &'static str { "Window" }
}
impl MonteCarloModelFactory for Window {
    fn factory(&self, timeline: &MonteCarloTimeline, context: Box<dyn BumpablePricingContext>) -> Result<Box<dyn MonteCarloModel>, qm::Error> {
        let model = self.inner.factory(timeline, context)?;
        let of = timeline.observations().keys().next().unwrap().clone();
        let mut t = self.tape.lock().unwrap();
        t.levels.clear();
        t.built += 1;
        for v in LEVELS.iter() {
            let mut other = model.clone();
            other.bump(&Bump::new_vol(of.id(), BumpVol::new_replace(*v)), None)?;
            t.levels.push(other.paths(&of)?.to_owned());
        }
        Ok(Box::new(Seen { inner: model, tape: self.tape.clone() }))
    }
}

/// Solves a small system by elimination.
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for c in 0..n {
        let p = (c..n).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        b.swap(c, p);
        for r in c + 1..n {
            let f = a[r][c] / a[c][c];
            for k in c..n { a[r][k] -= f * a[c][k]; }
            b[r] -= f * b[c];
        }
    }
    for c in (0..n).rev() {
        for k in c + 1..n { b[c] -= a[c][k] * b[k]; }
        b[c] /= a[c][c];
    }
    b
}

/// How each path grows to each observation, as a polynomial in the standard deviation of a step:
/// the coefficients from the first power on.
type Growth = Vec<Vec<Option<Vec<f64>>>>;
fn drawn(levels: &[Array2<f64>], fwds: &[f64], units: &[f64], steps: &[usize]) -> Growth {
    (0..PATHS).map(|p| (0..fwds.len()).map(|o| {
        let n = steps[o];
        if units[o] < 1e-12 { return None }     // no vol time passes: nothing can be told
        let mut rows = vec![];
        let mut gains = vec![];
        for k in 0..n {
            let before = if o == 0 { 1.0 } else { levels[k][(p, o - 1)] / fwds[o - 1] };
            if before.abs() < 0.02 { return None }
            let sd = LEVELS[k] * (units[o] / n as f64).sqrt();
            rows.push((1..n + 1).map(|j| sd.powi(j as i32)).collect());
            gains.push(levels[k][(p, o)] / fwds[o] / before - 1.0);
        }
        Some(solve(rows, gains))
    }).collect()).collect()
}

#[derive(Clone)]
struct Moment { paths: Option<Array2<f64>>, price: Got }

fn look(pricer: &dyn Pricer, tape: &Shared) -> Moment {
    { let mut t = tape.lock().unwrap(); t.paths = None; t.quantities = None; }
    let price = guarded(|| said(pricer.price()));
    Moment { paths: tape.lock().unwrap().paths.clone(), price }
}

fn equal(a: &Option<Array2<f64>>, b: &Option<Array2<f64>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits()),
        _ => false,
    }
}

/// Numbers of steps, unless too close to call.
fn whole(defs: &Value, terms: &Value) -> Option<Vec<usize>> {
    arr(terms).iter().map(|t| {
        let (x, y) = (eval_with(defs, &nudged(t, 1.0 - 1e-9)), eval_with(defs, &nudged(t, 1.0 + 1e-9)));
        if x.is_finite() && x == y { Some(x as usize) } else { None }
    }).collect()
}
/// The term with what is rounded up multiplied by something.
fn nudged(t: &Value, by: f64) -> Value {
    match t {
        Value::Array(a) if a.first().map_or(false, |x| x == "ceil") =>
            serde_json::json!(["ceil", ["*", a[1], ["c", (by * 1e10).round() as i64, 10000000000i64]]]),
        Value::Array(a) => Value::Array(a.iter().map(|x| nudged(x, by)).collect()),
        x => x.clone(),
    }
}

fn moment(x: &Value) -> DateDayFraction {
    DateDayFraction::new(day(&x[0]), if x[1] == 2 { 0.8 } else { 0.0 })
}

/// Paths made from given random numbers on a given market.
fn walks(r: &mut Report, rng: &mut Rng, v: &Value, defs: &Value, all: &Value, mk: &Value, raw: &MarketData, list: &[RcInstrument]) {
    for x in arr(all) {
        let k = &mk["walks"][i(&x["k"]) as usize - 1];
        let obs: Vec<_> = arr(&k["obs"]).iter().map(moment).collect();
        let of: Vec<_> = arr(&k["ns"]).iter().map(|n| list[i(n) as usize - 1].clone()).collect();
        let steps: Vec<_> = arr(&k["steps"]).iter().map(|n| i(n) as usize).collect();
        let total: usize = steps.iter().sum();
        let good = arr(&x["assets"]).iter().map(|a| judge_in(defs, &a["c"], &mut vec![])).fold(Some(true), |a, b| match (a, b) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (Some(true), Some(true)) => Some(true),
            _ => None,
        });
        let need = guarded(|| said(calculate_substepping(&obs, raw, &of, i(&mk["sub"]) as f64 / 1e4)));
        r.count("walk");
        let n = whole(defs, &x["need"]);
        r.check(match (good, &need) {
            (Some(true), Ok(Ok(g))) => n.map_or(true, |n| *g == n),
            (Some(false), Ok(Err(_))) => true,
            (None, Ok(_)) => true,
            _ => false,
        }, "substepping", v, || format!("walk {}: {:?} steps, specification {:?} {:?}", x["k"], need, good, whole(defs, &x["need"])));
        let gs = Array3::from_shape_fn((4, total, of.len()), |_| rng.unit() * 5.0 - 2.5);
        let got = guarded(|| said(fetch_paths(&obs, &gs, raw, &of, &steps, 4)));
        match (good, got) {
            (Some(true), Ok(Ok(p))) => {
                for (z, a) in arr(&x["assets"]).iter().enumerate() {
                    for path in 0..4 {
                        let names: Vec<_> = (0..total).map(|g| format!("g{}_{}", z + 1, g + 1)).collect();
                        for (o, t) in arr(&a["p"]).iter().enumerate() {
                            let mut env: Vec<(&str, f64)> = names.iter().enumerate().map(|(g, n)| (n.as_str(), gs[(path, g, z)])).collect();
                            let want = eval_in(defs, t, &mut env);
                            r.close(p[(path, o, z)], want, 1e-9, 100.0, "walk", v, "a point of a path");
                        }
                    }
                }
            }
            (Some(false), Ok(Err(_))) | (None, Ok(_)) => {}
            (g, p) => { r.fail("walk", v, format!("walk {}: {:?}, specification {:?}", x["k"], p, g)); }
        }
    }
}

/// What is drawn is standard gaussian, and independent. Bounds are six and a half standard errors.
fn gaussians(r: &mut Report, raw: &MarketData, of: &RcInstrument) {
    let case = serde_json::json!({"drawn": "gaussians"});
    let n = 40000;
    let g = match guarded(|| said(fetch_correlated_gaussians(raw, &vec![of.clone()], 20, &[1, 2, 1], n))) { Ok(Ok(g)) => g, e => { r.fail("gaussians", &case, format!("{:?}", e.map(|_| ()))); return } };
    r.check(g.shape() == [n, 4, 1], "gaussians", &case, || format!("shape {:?}", g.shape()));
    let limit = 6.5 / (n as f64).sqrt();
    let mean = |f: &dyn Fn(usize) -> f64| (0..n).map(f).sum::<f64>() / n as f64;
    for a in 0..4 {
        let (m1, m2, m3, m4) = (mean(&|p| g[(p, a, 0)]), mean(&|p| g[(p, a, 0)].powi(2)), mean(&|p| g[(p, a, 0)].powi(3)), mean(&|p| g[(p, a, 0)].powi(4)));
        r.check(m1.abs() < limit && (m2 - 1.0).abs() < limit * 2f64.sqrt() && m3.abs() < limit * 15f64.sqrt() && (m4 - 3.0).abs() < limit * 96f64.sqrt(),
            "gaussians", &case, || format!("step {}: moments {} {} {} {}", a, m1, m2, m3, m4));
        for b in 0..a {
            let c = mean(&|p| g[(p, a, 0)] * g[(p, b, 0)]);
            r.check(c.abs() < limit, "gaussians", &case, || format!("steps {} and {}: correlation {}", a, b, c));
        }
        let c = mean(&|p| g[(p, a, 0)] * g[((p + 1) % n, a, 0)]);
        r.check(c.abs() < limit, "gaussians", &case, || format!("step {}: correlation {} from path to path", a, c));
    }
}

pub fn run(ins: &[String], seed: u64) -> Report {
    let mut r = Report::new();
    let mut rng = Rng::new(seed);
    let w = read(&ins[0]);
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(n, c)| make_calendar(c, &format!("C{}", n + 1))).collect();
    let markets: Vec<_> = arr(&w["markets"]).iter().map(|m| (make_market(m, &cals).unwrap_or_else(|e| fatal(&e.to_string())), make_instruments(&m["insts"]))).collect();
    gaussians(&mut r, &markets[0].0, &markets[0].1[0]);
    let mut alldefs: HashMap<i64, Value> = HashMap::new();
    // what the specification says of a history, by the moment the pricer was built
    let mut known: HashMap<String, Value> = HashMap::new();
    each_line(&ins[1], |mut v| {
        let defs = v["defs"].take();
        if arr(&v["hist"]).is_empty() { alldefs.insert(i(&v["w"]), defs); }
        let defs = &alldefs[&i(&v["w"])];
        let hist = arr(&v["hist"]).clone();
        let name = |n: usize| format!("{} {:?}", v["w"], &hist[..n]);
        let parts: Vec<_> = ["obs", "c", "pay", "df", "walks"].iter().map(|k| v[*k].clone()).collect();
        let v = { let mut u = v.clone(); for k in ["obs", "c", "pay", "df", "walks"].iter() { u.as_object_mut().unwrap().remove(*k); } u };
        let (obs, conds, pay, df, walked) = (&parts[0], &parts[1], &parts[2], &parts[3], &parts[4]);
        let built = i(&v["built"]) as usize;
        if built == hist.len() { known.insert(name(built), obs.clone()); }
        r.cases += 1;
        if r.cases % 197 == 77 { r.sample(v.clone()); }

        let wi = i(&v["w"]) as usize - 1;
        let mk = &w["markets"][wi];
        let (market, list) = &markets[wi];
        let option = list[i(&mk["opt"]) as usize - 1].clone();
        let weight = i(&mk["x"]) as f64 / 100.0;
        let sub = i(&mk["sub"]) as f64 / 1e4;
        let tape: Shared = Arc::new(Mutex::new(Tape::default()));
        let model: RcMonteCarloModelFactory = Qrc::new(Arc::new(Window { inner: BlackDiffusionFactory::new(20, sub, PATHS), tape: tape.clone() }));
        let good = judge_in(defs, conds, &mut vec![]);
        let made: Result<Result<Box<dyn Pricer>, String>, String> = guarded(|| said(if weight == 1.0 {
            let none = RcFixingTable::new(Arc::new(FixingTable::from_iter_known_until(day(&mk["date"]), HashMap::<String, Vec<_>>::new().iter()).unwrap()));
            MonteCarloPricerFactory::new(model.clone()).new(option.clone(), none, RcMarketData::new(Arc::new(market.clone())))
        } else {
            MonteCarloPricer::new(vec![(weight, option.clone())], model.clone(), market).map(|p| Box::new(p) as Box<dyn Pricer>)
        }));
        let mut pricer = match made {
            Ok(Ok(p)) => { if hist.is_empty() { r.check(good != Some(false), "built", &v, || "no error, though variance is lost on the way".to_string()); } p }
            e => { if hist.is_empty() { r.check(matches!(e, Ok(_)) && good != Some(true), "built", &v, || format!("{:?}", e.map(|_| ()))); } return }
        };
        let mut save = pricer.as_bumpable().new_saveable();
        let mut raw = market.clone();
        let mut rawsave = raw.new_saveable();
        let deps = { let mut d = DependencyCollector::new(market.spot_date()); d.spot(&option); d };
        let same = i(&v["same"]);
        let mut moments: Vec<Moment> = vec![];
        let first = look(&*pricer, &tape);
        moments.push(first);
        for (step, h) in hist.iter().enumerate() {
            let last = step + 1 == hist.len();
            let before = tape.lock().unwrap().built;
            let did: Result<Result<bool, String>, String> = match s(&h["a"]) {
                "bump" => {
                    let b = make_bump(&mk["bumps"][i(&h["i"]) as usize - 1]);
                    let keep = h["keep"] == true;
                    let _ = guarded(|| raw.bump(&b, if keep { Some(&mut *rawsave) } else { None }));
                    guarded(|| said(pricer.as_mut_bumpable().bump(&b, if keep { Some(&mut *save) } else { None })))
                }
                "restore" => { let _ = guarded(|| raw.restore(&*rawsave)); guarded(|| said(pricer.as_mut_bumpable().restore(&*save).map(|_| true))) }
                "clear" => { save.clear(); rawsave.clear(); Ok(Ok(true)) }
                a => {
                    let mv = &mk[if a == "move" { "moves" } else { "advances" }][i(&h["i"]) as usize - 1];
                    let to = pricer.as_bumpable().context().spot_date() + i(&mv["n"]) as i32;
                    let how = if mv["o"] == "forward" { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot };
                    if i(&mv["n"]) != 0 { let _ = guarded(|| said(raw.bump_spot_date(&BumpSpotDate::new(to, how), &deps))); }
                    if a == "move" { guarded(|| said(pricer.as_mut_bumpable().bump(&Bump::new_spot_date(BumpSpotDate::new(to, how)), None))) }
                    else {
                        let x = time_bump(pricer.as_bumpable().context().spot_date(), mv);
                        let y = guarded(|| said(pricer.as_mut_time_bumpable().bump_time(&x)));
                        // a save area belongs to the pricer it was made for
                        save = pricer.as_bumpable().new_saveable();
                        let again = tape.lock().unwrap().built - before;
                        y.map(|y| y.map(|_| again == 1))
                    }
                }
            };
            if last { r.count(s(&h["a"])); }
            match &did {
                Ok(Ok(x)) => if last { r.check(h["r"] == *x, "acted", &v, || format!("said {}", x)); },
                _ => {
                    // losing variance on the way is an error, and what is left then is unspecified
                    if last { r.check(matches!(&did, Ok(Err(_))) && good != Some(true), "acted", &v, || format!("{:?}", did)); }
                    return
                }
            }
            if last || step + 1 == built || (step + 1) as i64 == same { let x = look(&*pricer, &tape); moments.push(x); }
            else { let x = moments[step].clone(); moments.push(x); }
        }
        if !r.check(good != Some(false), "acted", &v, || "no error, though variance is lost on the way".to_string()) { return }
        let now = moments.last().unwrap();
        let here = pricer.as_bumpable().context().spot_date();
        r.check(here == day(&v["date"]), "date", &v, || format!("{:?}", here));

        // what it was, where it is what it was
        if same >= 0 {
            let then = &moments[same as usize];
            r.check(equal(&then.paths, &now.paths), "undone", &v, || format!("the paths are not those after {} of the actions", same));
            r.check(bits(&then.price) == bits(&now.price), "undone", &v, || format!("worth {:?}, was {:?} after {} of the actions", now.price, then.price, same));
        }
        if v["fix"] == true {
            r.check(equal(&moments[built].paths, &now.paths), "unmoved", &v, || "the paths moved, though nothing they depend on did".to_string());
        }

        // the paths
        let paths = match &now.paths { Some(p) => p.clone(), None => { r.fail("paths", &v, format!("priced without paths: {:?}", now.price)); return } };
        let n_obs = arr(obs).len();
        if !r.check(paths.shape() == [PATHS, n_obs], "paths", &v, || format!("shape {:?}", paths.shape())) { return }
        let num = |o: usize, k: &str| eval_with(defs, &obs[o][k]);
        let fwds: Vec<_> = (0..n_obs).map(|o| num(o, "f")).collect();
        if good != Some(false) {
            if let Some(steps) = whole(defs, &v["n"]).filter(|n| n.iter().all(|n| *n <= LEVELS.len())) {
                let at = &known[&name(built)];
                let levels = tape.lock().unwrap().levels.clone();
                let g = drawn(&levels, &(0..n_obs).map(|o| eval_with(defs, &at[o]["f"])).collect::<Vec<_>>(),
                    &(0..n_obs).map(|o| eval_with(defs, &at[o]["unit"])).collect::<Vec<_>>(), &steps);
                r.nontrivial += 1;
                for p in 0..PATHS {
                    let (mut point, mut size) = (1.0, 1.0);
                    for o in 0..n_obs {
                        let still = vec![0.0];
                        let c = match &g[p][o] { Some(c) => c, None if num(o, "v").abs() < 1e-14 => &still, None => break };
                        let sd = (num(o, "v").max(0.0) / steps[o] as f64).sqrt();
                        let grow: f64 = c.iter().enumerate().map(|(j, e)| e * sd.powi(j as i32 + 1)).sum();
                        let most: f64 = c.iter().enumerate().map(|(j, e)| (e * sd.powi(j as i32 + 1)).abs()).sum();
                        point *= 1.0 + grow;
                        size *= 1.0 + most;
                        let x = num(o, "x");
                        let want = point * (fwds[o] - x) + x;
                        let tol = 1e-8 * size * (fwds[o].abs() + x.abs());
                        r.check((paths[(p, o)] - want).abs() <= tol, "paths", &v,
                            || format!("path {} observation {}: {}, specification {} ({} steps)", p, o, paths[(p, o)], want, steps[o]));
                    }
                }
                r.count(&format!("steps {:?}", steps));
            } else { r.count("steps too close to call or too many"); }
        }

        // the price
        let q = match tape.lock().unwrap().quantities.clone() { Some(q) => q, None => { r.fail("quantities", &v, format!("{:?}", now.price)); return } };
        let mut sum = 0.0;
        for p in 0..PATHS {
            let mut env: Vec<(&str, f64)> = (0..n_obs).map(|o| (["s1", "s2"][o], paths[(p, o)])).collect();
            let want = eval_in(defs, pay, &mut env);
            sum += want;
            r.check(q.shape() == [PATHS, 1] && approx(q[(p, 0)], want, 1e-10, 200.0), "pays", &v,
                || format!("path {} at {}: pays {:?}, specification {}", p, paths.row(p), q.get((p, 0)), want));
        }
        let discounted = arr(df).iter().any(|x| { let (ok, d) = answer(defs, x); match &now.price {
            Ok(Ok(g)) => ok != Some(false) && approx(*g, weight * d * sum / PATHS as f64, 1e-10, 200.0),
            Ok(Err(_)) => ok != Some(true),
            Err(_) => false } });
        r.check(discounted, "price", &v, || format!("worth {:?}, average payment {}, discount {}", now.price, sum / PATHS as f64, show(defs, df)));

        // a copy is worth the same, and bumping it does not change the original
        if r.cases % 7 == 3 {
            let mut copy = pricer.clone_box();
            let a = look(&*copy, &tape);
            let _ = guarded(|| said(copy.as_mut_bumpable().bump(&make_bump(&mk["bumps"][0]), None)));
            let b = look(&*pricer, &tape);
            r.check(equal(&a.paths, &now.paths) && equal(&b.paths, &now.paths) && bits(&a.price) == bits(&now.price) && bits(&b.price) == bits(&now.price),
                "copied", &v, || format!("worth {:?}, a copy {:?}, and {:?} after that was bumped", now.price, a.price, b.price));
        }
        walks(&mut r, &mut rng, &v, defs, walked, mk, &raw, list);
    });
    r
}
