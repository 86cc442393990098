//! Records what instruments declare, what is then listed and what pricing and fixing go on to
//! use, for DependencyTrace.tla (P08).

use crate::calendars::{day, make_calendar};
use crate::curves::read;
use crate::lifecycle::table_of;
use crate::markets::*;
use crate::risk::bits;
use crate::util::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::curves::{RateCurve, RcRateCurve};
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::instruments::*;
use quantmath::math::interpolation::Interpolate;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::Pricer;
use serde::Serialize;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<Value>>>;

fn n(d: Date) -> i64 { (d - day(&json!(0))) as i64 }
fn tod(d: DateTime) -> i64 {
    match d.time_of_day() { TimeOfDay::Open => 0, TimeOfDay::EDSP => 1, TimeOfDay::Close => 2 }
}
fn item(e: &str, k: &str, id: &str, d: i64, t: i64, credit: &str) -> Value {
    json!({"e": e, "k": k, "id": id, "d": d, "t": t, "credit": credit})
}

/// Writes down what is declared, asking underlyings as a collector does.
struct Recorder { date: Date, log: Vec<Value> }

impl DependencyContext for Recorder {
    fn spot_date(&self) -> Date { self.date }
    fn yield_curve(&mut self, credit_id: &str, to: Date) { self.log.push(item("decl", "yield", credit_id, n(to), 0, "")); }
    fn spot(&mut self, x: &RcInstrument) {
        if x.dependencies(self) != SpotRequirement::NotRequired { self.log.push(item("decl", "spot", x.id(), 0, 0, "")); }
    }
    fn forward_curve(&mut self, x: &RcInstrument, to: Date) {
        self.log.push(item("decl", "fwd", x.id(), n(to), 0, x.credit_id()));
        self.spot(x);
    }
    fn vol_surface(&mut self, x: &RcInstrument, to: Date) { self.log.push(item("decl", "vol", x.id(), n(to), 0, "")); }
    fn fixing(&mut self, id: &str, d: DateTime) { self.log.push(item("decl", "fix", id, n(d.date()), tod(d), "")); }
}

/// A market that writes down what it is asked.
struct Asked<'a> { inner: &'a MarketData, log: Log }

impl<'a> Asked<'a> {
    fn note(&self, e: &str, k: &str, id: &str, d: i64) { self.log.lock().unwrap().push(item(e, k, id, d, 0, "")); }
}

impl<'a> PricingContext for Asked<'a> {
    fn spot_date(&self) -> Date { self.inner.spot_date() }
    fn yield_curve(&self, id: &str, to: Date) -> Result<RcRateCurve, qm::Error> {
        self.note("ask", "yield", id, n(to));
        Ok(Qrc::new(Arc::new(Curve { inner: self.inner.yield_curve(id, to)?, id: id.to_string(), log: self.log.clone() })))
    }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> {
        self.note("ask", "spot", id, 0);
        self.inner.spot(id)
    }
    fn forward_curve(&self, x: &dyn Instrument, to: Date) -> Result<Arc<dyn Forward>, qm::Error> {
        self.note("ask", "fwd", x.id(), n(to));
        Ok(Arc::new(Fwd { inner: self.inner.forward_curve(x, to)?, id: x.id().to_string(), log: self.log.clone() }))
    }
    fn vol_surface(&self, x: &dyn Instrument, to: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> {
        self.note("ask", "vol", x.id(), n(to));
        // what the surface does with the forward is the market's business
        let _ = f;
        self.inner.vol_surface(x, to, &|| self.inner.forward_curve(x, to))
    }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> { self.inner.correlation(a, b) }
}

struct Fwd { inner: Arc<dyn Forward>, id: String, log: Log }
impl Forward for Fwd {
    fn as_interp(&self) -> &dyn Interpolate<Date> { self }
    fn forward(&self, d: Date) -> Result<f64, qm::Error> {
        self.log.lock().unwrap().push(item("read", "fwd", &self.id, n(d), 0, ""));
        self.inner.forward(d)
    }
    fn fixed_divs_after(&self, d: Date) -> Result<f64, qm::Error> { self.inner.fixed_divs_after(d) }
}

struct Curve { inner: RcRateCurve, id: String, log: Log }
impl Serialize for Curve {
    fn serialize<S: serde::Serializer>(&self, to: S) -> Result<S::Ok, S::Error> { to.serialize_str(&self.id) }
}
impl std::fmt::Debug for Curve {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.id.fmt(f) }
}
impl TypeId for Curve { fn get_type_id(&self) -> &'static str { "Curve" } }
impl RateCurve for Curve {
    fn base_date(&self) -> Date { self.inner.base_date() }
    fn is_zero(&self) -> bool { self.inner.is_zero() }
    fn r_and_t(&self, d: Date) -> Result<(f64, f64), qm::Error> {
        self.log.lock().unwrap().push(item("read", "yield", &self.id, n(d), 0, ""));
        self.inner.r_and_t(d)
    }
}

/// What the collector lists, given everything it could know of.
fn list(c: &DependencyCollector, known: &[RcInstrument], credits: &[String], log: &mut Vec<Value>) {
    for x in known {
        if c.has_spot(x) { log.push(item("list", "spot", x.id(), 0, 0, "")); }
        if let Some(d) = c.forward_curve_hwm(x) { log.push(item("list", "fwd", x.id(), n(d), 0, x.credit_id())); }
        if let Some(d) = c.vol_surface_hwm(x) { log.push(item("list", "vol", x.id(), n(d), 0, "")); }
        for d in c.fixings(x.id()) { log.push(item("list", "fix", x.id(), n(d.date()), tod(*d), "")); }
    }
    for k in credits {
        if let Some(d) = c.yield_curve_hwm(k) { log.push(item("list", "yield", k, n(d), 0, "")); }
        for id in c.forward_id_by_credit_id(k) { log.push(item("list", "under", id, 0, 0, k)); }
    }
}

/// The two ways of looking at what is listed agree, and name the instruments that bumps look up.
fn consistent(c: &DependencyCollector, known: &[RcInstrument]) -> Result<(), String> {
    for (x, d) in c.forward_curves() {
        if c.forward_curve_hwm(x) != Some(*d) { return Err(format!("forward of {}", x.id())) }
    }
    for (x, d) in c.vol_surfaces() {
        if c.vol_surface_hwm(x) != Some(*d) { return Err(format!("vol of {}", x.id())) }
        if c.instrument_by_id(x.id()).is_none() { return Err(format!("vol of {} without the instrument", x.id())) }
    }
    let mut ids = c.instruments_clone();
    ids.sort();
    let mut iter: Vec<_> = c.instruments_iter().map(|x| x.0.clone()).collect();
    iter.sort();
    if ids != iter { return Err("instruments listed two ways".to_string()) }
    for (id, x) in c.instruments_iter() {
        if id != x.id() { return Err(format!("{} listed as {}", x.id(), id)) }
    }
    for x in known {
        if c.has_spot(x) && c.instrument_by_id(x.id()).is_none() { return Err(format!("spot of {} without the instrument", x.id())) }
        if (c.forward_curve_hwm(x).is_some()) != c.forward_curves().contains_key(x) { return Err(format!("forward of {}", x.id())) }
    }
    Ok(())
}

/// The market with only what is listed.
fn only(mk: &Value, list: &[Value]) -> Value {
    let has = |k: &str, id: &str| list.iter().any(|x| x["e"] == "list" && x["k"] == k && x["id"] == id);
    let mut m = mk.clone();
    for (field, kinds) in [("spot", vec!["spot", "fwd"]), ("borrow", vec!["fwd"]), ("div", vec!["fwd"]), ("vol", vec!["vol"]), ("rate", vec!["yield"])] {
        let keep: serde_json::Map<String, Value> = m[field].as_object().unwrap().iter()
            .filter(|x| kinds.iter().any(|k| has(k, x.0))).map(|x| (x.0.clone(), x.1.clone())).collect();
        m[field] = Value::Object(keep);
    }
    m
}

pub fn record(ins: &[String], seed: u64) -> Report {
    let mut r = Report::new();
    let mut rng = Rng::new(seed);
    let w = read(&ins[0]);
    let mut out = std::io::BufWriter::new(std::fs::File::create(&ins[1]).unwrap_or_else(|e| fatal(&e.to_string())));
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(k, c)| make_calendar(c, &format!("C{}", k + 1))).collect();
    for (wi, mk) in arr(&w["markets"]).iter().enumerate() {
        let market = make_market(mk, &cals).unwrap_or_else(|e| fatal(&e.to_string()));
        let known = make_instruments(&mk["insts"]);
        let credits: Vec<String> = mk["rate"].as_object().unwrap().keys().cloned().collect();
        let date = market.spot_date();
        let now = DateTime::new(date, TimeOfDay::Open);
        // each alone, then some together
        let mut groups: Vec<Vec<usize>> = (0..known.len()).map(|x| vec![x]).collect();
        let plain: Vec<usize> = (0..known.len()).filter(|x| mk["insts"][*x]["plain"] == true).collect();
        for _ in 0..6 { groups.push((0..rng.range(2, 5)).map(|_| *rng.pick(&plain)).collect()); }
        for g in groups {
            r.cases += 1;
            let mut log = vec![json!({"e": "case", "w": wi + 1, "insts": g.iter().map(|x| x + 1).collect::<Vec<_>>()})];
            let mut rec = Recorder { date, log: vec![] };
            let mut c = DependencyCollector::new(date);
            for x in &g { rec.spot(&known[*x]); c.spot(&known[*x]); }
            // others may declare on the same collector
            if g.len() > 1 {
                for _ in 0..rng.range(0, 4) {
                    let x = &known[*rng.pick(&plain)];
                    let to = date + rng.range(0, 400) as i32;
                    match rng.below(4) {
                        0 => { let k = rng.pick(&credits); rec.yield_curve(k, to); c.yield_curve(k, to) }
                        1 => { rec.forward_curve(x, to); c.forward_curve(x, to) }
                        2 => { rec.vol_surface(x, to); c.vol_surface(x, to) }
                        _ => { let d = DateTime::new(to, TimeOfDay::Close); rec.fixing(x.id(), d); c.fixing(x.id(), d) }
                    }
                }
            }
            if rec.log.len() > 2 { r.nontrivial += 1; }
            log.append(&mut rec.log);
            let mut listed = vec![];
            list(&c, &known, &credits, &mut listed);
            log.extend(listed.iter().cloned());
            log.push(json!({"e": "listed"}));
            let case = json!({"w": wi + 1, "insts": g.iter().map(|x| mk["insts"][*x].clone()).collect::<Vec<_>>()});
            let ok = consistent(&c, &known);
            r.check(ok.is_ok(), "listing", &case, || format!("{:?}", ok));

            for x in &g {
                let facts = &mk["insts"][*x];
                let asks: Log = Arc::new(Mutex::new(vec![]));
                let inst = &known[*x];
                let context = Asked { inner: &market, log: asks.clone() };
                let got = guarded(|| inst.as_priceable().unwrap().price(&context, now).map_err(|e| e.to_string()));
                if let Ok(Ok(_)) = got { r.count("priced") } else { r.count("refused") }
                let on = if facts["u"].is_null() { Value::from("") } else { mk["insts"][i(&facts["u"]) as usize - 1]["kind"].clone() };
                let other = if facts["u"].is_null() { json!("") } else { json!(known[i(&facts["u"]) as usize - 1].credit_id()) };
                // no further than it can need
                let last = |k: &Value| if facts["u"].is_null() { i64::MAX } else if k == "yield" { n(inst.settlement().apply(day(&facts["ed"]))) } else { i(&facts["ed"]) };
                for mut a in asks.lock().unwrap().drain(..) {
                    r.checks += 1;
                    let late = i(&a["d"]) > last(&a["k"]);
                    let why = match s(&a["k"]) {
                        "yield" if a["id"] == other && facts["credit"] != other && !late => "underlying's curve to the payment date",
                        "fwd" if on == "basket" && !late => "member of a basket",
                        _ => "",
                    };
                    a["why"] = json!(why);
                    a["inst"] = json!(*x + 1);
                    log.push(a);
                }
                // fixings it turns out to depend on
                let with = |skip: usize| guarded(|| {
                    let t = table_of(arr(&mk["fixes"]).iter().enumerate().filter(|y| y.0 != skip).map(|y| y.1), &json!(1));
                    inst.fix(&t).map(|x| x.map(|y| y.iter().map(|z| (z.0, serde_json::to_value(&z.1).unwrap())).collect::<Vec<_>>())).map_err(|e| e.to_string())
                });
                let base = with(usize::MAX);
                for (k, f) in arr(&mk["fixes"]).iter().enumerate() {
                    if format!("{:?}", with(k)) != format!("{:?}", base) {
                        r.count("fixing used");
                        log.push(json!({"e": "used", "id": f["id"], "d": f["d"], "t": f["t"], "k": "fix"}));
                    }
                }
            }

            // a pricer that has only what is listed prices just as well
            let basket_option = |x: &usize| { let f = &mk["insts"][*x]; !f["u"].is_null() && mk["insts"][i(&f["u"]) as usize - 1]["kind"] == "basket" };
            if !g.iter().any(basket_option) {
                let port: Vec<_> = g.iter().map(|x| (1.5, known[*x].clone())).collect();
                let less = make_market(&only(mk, &listed), &cals).unwrap_or_else(|e| fatal(&e.to_string()));
                let (a, b) = (guarded(|| SelfPricer::new(port.clone(), &market).and_then(|p| p.price()).map_err(|e| e.to_string())),
                              guarded(|| SelfPricer::new(port.clone(), &less).and_then(|p| p.price()).map_err(|e| e.to_string())));
                // not simply the sum: an option that is past needs no data to be worth nothing
                let raw = guarded(|| port.iter().try_fold(0.0, |t, x| x.1.as_priceable().unwrap().price(&market, now).map(|p| t + 1.5 * p)).map_err(|e| e.to_string()));
                r.check(bits(&a) == bits(&b) && (matches!((&a, &raw), (Ok(Ok(p)), Ok(Ok(q))) if approx(*p, *q, 1e-11, 100.0)) || !matches!(raw, Ok(Ok(_)))), "enough", &case,
                    || format!("with all data {:?}, with what is listed {:?}, unfetched {:?}", a, b, raw));
            }
            for x in log { writeln!(out, "{}", x).unwrap(); }
        }
    }
    r
}
