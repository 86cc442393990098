//! Objects of every kind, written and read back, for Serial.tla (P16): records the documents the
//! library writes, compares what is read back with the original, and replays damaged documents.

use crate::forwards::settlement;
use crate::markets::rc;
use crate::util::*;
use quantmath::core::dedup::{DedupControl, InstanceId};
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::fixings::*;
use quantmath::data::forward::{EquityForward, Forward};
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use quantmath::facade;
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::{PricingContext, RcInstrument, SpotRequirement};
use quantmath::math::interpolation::*;
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::DeltaGammaReportGenerator;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::{MarketData, RcMarketData};
use quantmath::risk::timebumped::TimeBumpedReportGenerator;
use quantmath::risk::vegavolga::VegaVolgaReportGenerator;
use quantmath::risk::{BoxReport, Pricer, RcReportGenerator};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::sync::Arc;

fn base() -> Date { Date::from_ymd(2018, 6, 1) }

// ---- objects

fn num(g: &mut Rng) -> f64 {
    match g.below(5) { 4 => *g.pick(&[0.0, 1.0, -1.0, 1e200, 1e-200, 0.1 + 0.2, 123456789012345.0, f64::EPSILON]), 0 => g.range(-50, 50) as f64, 1 => g.unit(), 2 => g.range(-300, 300) as f64 / 7.0, _ => (g.unit() - 0.5) * 1e-7 }
}
fn date(g: &mut Rng) -> Date { base() + g.range(-400, 900) as i32 }
fn name(g: &mut Rng) -> String {
    let n = ["X", "BP.L", "a b", "é\"\\/", "GBP", "日本", "{}", "null", "tab\t", "Equity"];
    format!("{}{}", g.pick(&n), g.below(1000))
}
fn moment(g: &mut Rng) -> DateTime { DateTime::new(date(g), *g.pick(&[TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close])) }
fn extrap(g: &mut Rng) -> Extrap { [Extrap::Flat, Extrap::Natural, Extrap::NotANumber, Extrap::Zero, Extrap::Throw][g.below(5) as usize] }
fn days(g: &mut Rng, least: i64) -> Vec<Date> {
    let n = least + g.range(0, 4);
    let mut v: Vec<Date> = (0..n).map(|_| date(g)).collect();
    v.sort(); v.dedup();
    while (v.len() as i64) < least { let d = *v.last().unwrap_or(&base()) + 10; v.push(d); }
    v
}
fn calendar(g: &mut Rng) -> RcCalendar {
    match g.below(5) {
        0 => Qrc::new(Arc::new(EveryDayCalendar::new())),
        1 => Qrc::new(Arc::new(WeekdayCalendar::new())),
        2 => { let w = g.unit(); let c = calendar(g); let n = name(g); Qrc::new(Arc::new(VolatilityCalendar::new(&n, c, w))) }
        _ => {
            let mut h = days(g, 0);
            // usually as they should be
            if g.below(4) > 0 { h.retain(|d| d.day_of_week() < 5) } else if h.len() > 1 { h.swap(0, 1); let d = h[0]; h.push(d) }
            let n = name(g);
            Qrc::new(Arc::new(WeekdayAndHolidayCalendar::new(&n, &h)))
        }
    }
}
fn rule(g: &mut Rng) -> RcDateRule {
    let c = calendar(g);
    let n = g.below(4) as u32;
    match g.below(6) {
        0 => Qrc::new(Arc::new(NullRule::new())),
        1 => Qrc::new(Arc::new(BusinessDays::new_next(c))),
        2 => Qrc::new(Arc::new(BusinessDays::new_prev(c))),
        3 => Qrc::new(Arc::new(BusinessDays::new_step(c, n))),
        4 => Qrc::new(Arc::new(BusinessDays::new_back(c, n))),
        _ => Qrc::new(Arc::new(ModifiedFollowing::new(c))),
    }
}
fn line(g: &mut Rng) -> Linear<Date> {
    let p: Vec<(Date, f64)> = days(g, 1).into_iter().map(|d| (d, num(g))).collect();
    Linear::new(&p, extrap(g), extrap(g)).unwrap()
}
fn spline(g: &mut Rng) -> CubicSpline<f64> {
    let n = g.range(2, 5);
    let p: Vec<(f64, f64)> = (0..n).map(|k| (60.0 + 20.0 * k as f64 + g.unit() * 15.0, num(g))).collect();
    CubicSpline::new(&p, extrap(g), extrap(g)).unwrap()
}
fn curve(g: &mut Rng) -> RcRateCurve {
    if g.below(40) == 0 {
        return (0..25).fold(Qrc::new(Arc::new(ZeroRateCurve::new(base()))), |c, k| Qrc::new(Arc::new(AnnualisedFlatBump::new(c, 0.001 * k as f64))))
    }
    match g.below(7) {
        0 => Qrc::new(Arc::new(ZeroRateCurve::new(date(g)))),
        1 => { let c = curve(g); Qrc::new(Arc::new(AnnualisedFlatBump::new(c, g.unit() * 0.1 - 0.05))) }
        2 => { let c = curve(g); Qrc::new(Arc::new(ContinuouslyCompoundedFlatBump::new(c, g.unit() * 0.1 - 0.05))) }
        3 => { let c = curve(g); Qrc::new(Arc::new(RelativeBump::new(c, g.unit() - 0.5))) }
        _ => {
            let p: Vec<(Date, f64)> = days(g, 1).into_iter().map(|d| (d, g.unit() * 0.1 - 0.02)).collect();
            Qrc::new(Arc::new(RateCurveAct365::new(base() - g.range(0, 3) as i32, &p, extrap(g), extrap(g)).unwrap()))
        }
    }
}
fn divs(g: &mut Rng) -> RcDividendStream {
    let (mut v, n) = (vec![], g.range(0, 4));
    let mut d = base() - 60;
    for _ in 0..n {
        d = d + g.range(1, 60) as i32;
        v.push(Dividend::new(if g.below(3) == 0 { 0.0 } else { g.unit() * 4.0 }, if g.below(2) == 0 { 0.0 } else { g.unit() * 0.05 }, d, d + g.range(0, 20) as i32));
    }
    RcDividendStream::new(Arc::new(DividendStream::new(&v, if g.below(2) == 0 { curve(g) } else { Qrc::new(Arc::new(ZeroRateCurve::new(base() + 300))) })))
}
fn surface(g: &mut Rng) -> RcVolSurface {
    let at = |g: &mut Rng| DateDayFraction::new(base(), g.range(0, 19) as f64 / 20.0);
    match g.below(9) {
        0 | 1 => { let c = calendar(g); Qrc::new(Arc::new(FlatVolSurface::new(0.1 + g.unit() * 0.3, c, at(g)))) }
        2 => { let v = surface(g); Qrc::new(Arc::new(ParallelBumpVol::new(v, g.unit() * 0.05))) }
        3 => { let v = surface(g); Qrc::new(Arc::new(TimeScaledBumpVol::new(v, g.unit() * 0.05, g.unit() * 0.5))) }
        4 => { let v = surface(g); Qrc::new(Arc::new(ConstantExpiryTimeEvolution::new(v, g.unit() * 0.1, DateDayFraction::new(base() + 5, 0.0)))) }
        5 => { let v = surface(g); Qrc::new(Arc::new(RollingExpiryTimeEvolution::new(v, g.unit() * 0.1, DateDayFraction::new(base() + 5, 0.0)))) }
        k => {
            let dv = || -> Linear<Date> { Linear::new(&[(base(), 5.0), (base() + 400, 1.5)], Extrap::Flat, Extrap::Flat).unwrap() };
            let fwd: Linear<Date> = Linear::new(&[(base(), 95.0 + 10.0 * g.unit()), (base() + 300, 105.0 + 10.0 * g.unit())], Extrap::Flat, Extrap::Flat).unwrap();
            let assume = *g.pick(&[DivAssumptions::NoCashDivs, DivAssumptions::IndependentLogNormals, DivAssumptions::FixedDivs, DivAssumptions::JumpDivs]);
            let (n, mut d) = (g.range(1, 3), base());
            // now and then starting today
            let mut first = g.below(3) == 0;
            let mut when = |g: &mut Rng| {
                if first { first = false; return DateDayFraction::new(d, 0.96) }
                d = d + g.range(20, 90) as i32;
                DateDayFraction::new(d, g.range(0, 19) as f64 / 20.0)
            };
            let c: RcCalendar = Qrc::new(Arc::new(WeekdayCalendar::new()));
            if k == 6 {
                let sm: Vec<_> = (0..n).map(|_| (when(g), FlatSmile::new(0.2 + g.unit() * 0.01).ok().unwrap())).collect();
                match VolByProbabilityFlatSmile::new(&sm, c, at(g), fwd, dv(), assume) { Ok(v) => Qrc::new(Arc::new(v)), Err(_) => surface(g) }
            } else {
                let sm: Vec<_> = (0..n).map(|_| {
                    let w = when(g);
                    let m = g.range(2, 4);
                    let p: Vec<_> = (0..m).map(|j| (70.0 + 25.0 * j as f64 + g.unit() * 5.0, 0.2 + g.unit() * 0.01)).collect();
                    (w, CubicSplineSmile::new(&p).unwrap())
                }).collect();
                match VolByProbabilityCubicSplineSmile::new(&sm, c, at(g), fwd, dv(), assume) { Ok(v) => Qrc::new(Arc::new(v)), Err(_) => surface(g) }
            }
        }
    }
}
fn currency(g: &mut Rng) -> RcCurrency { let n = name(g); RcCurrency::new(Arc::new(Currency::new(&n, rule(g)))) }
fn gbp() -> RcCurrency { RcCurrency::new(Arc::new(Currency::new("GBP", settlement(2)))) }
fn equity(g: &mut Rng) -> RcInstrument {
    let id = if g.below(3) == 0 { name(g) } else { g.pick(&["BP.L", "GSK.L"]).to_string() };
    let c = if g.below(2) == 0 { gbp() } else { currency(g) };
    rc(Equity::new(&id, "LSE", c, settlement(g.range(-1, 3))))
}
fn instrument_of(g: &mut Rng, deep: u64) -> RcInstrument {
    let (put, phys) = (*g.pick(&[PutOrCall::Put, PutOrCall::Call]), *g.pick(&[OptionSettlement::Cash, OptionSettlement::Physical]));
    match g.below(if deep == 0 { 5 } else { 9 }) {
        0 => { let id = name(g); rc(Currency::new(&id, rule(g))) }
        1 => { let id = name(g); rc(CreditEntity::new(&id, currency(g), rule(g))) }
        2 => { let id = name(g); rc(ZeroCoupon::new(&id, "OPT", currency(g), moment(g), date(g), rule(g))) }
        3 | 4 => equity(g),
        5 => {
            let (u, n) = (if g.below(3) == 0 { basket(g, 0) } else { equity(g) }, name(g));
            rc(SpotStartingEuropean::new(&n, "OPT", u, settlement(g.range(-1, 3)), moment(g), 80.0 + g.unit() * 40.0, put, phys).unwrap())
        }
        6 => {
            let (u, n) = (equity(g), name(g));
            rc(ForwardStartingEuropean::new(&n, "OPT", u, settlement(g.range(-1, 3)), moment(g), 0.9 + g.unit() * 0.2, moment(g), put, phys).unwrap())
        }
        _ => basket(g, deep - 1),
    }
}
fn basket(g: &mut Rng, deep: u64) -> RcInstrument {
    let (n, m) = (name(g), g.range(1, 3));
    let gbp = gbp();
    if deep > 0 && g.below(8) == 0 {
        return (0..8).fold(rc(Equity::new("BP.L", "LSE", gbp.clone(), settlement(2))), |x, k| rc(Basket::new(&format!("{}{}", n, k), "OPT", gbp.clone(), settlement(2), vec![(0.5 + k as f64, x)]).unwrap()))
    }
    let list: Vec<(f64, RcInstrument)> = (0..m).map(|k| (num(g), if deep > 0 && g.below(2) == 0 {
        let x = instrument_of(g, deep);
        // baskets are of one currency
        if x.payoff_currency().id() == "GBP" { x } else { rc(Equity::new("BP.L", "LSE", gbp.clone(), settlement(2))) }
    } else { rc(Equity::new(["BP.L", "GSK.L", "Z"][k as usize], "LSE", gbp.clone(), settlement(2))) })).collect();
    rc(Basket::new(&n, "OPT", gbp, settlement(2), list).unwrap_or_else(|e| fatal(&e.to_string())))
}
fn instrument(g: &mut Rng) -> RcInstrument { let k = g.below(4); instrument_of(g, k) }

fn market(g: &mut Rng) -> RcMarketData {
    let (mut spots, mut rates, mut borrow, mut dv, mut vols) = (HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
    let flat = |r: f64| -> RcRateCurve { Qrc::new(Arc::new(RateCurveAct365::new(base(), &[(base(), r), (base() + 1000, r)], Extrap::Flat, Extrap::Flat).unwrap())) };
    for id in ["BP.L", "GSK.L", "Z"].iter() {
        if g.below(8) > 0 { spots.insert(id.to_string(), 90.0 + 20.0 * g.unit()); }
        if g.below(8) > 0 { borrow.insert(id.to_string(), flat(g.unit() * 0.02)); }
        if g.below(8) > 0 { dv.insert(id.to_string(), divs(g)); }
        if g.below(8) > 0 { vols.insert(id.to_string(), surface(g)); }
    }
    for c in ["LSE", "OPT"].iter() { rates.insert(c.to_string(), if g.below(4) == 0 { curve(g) } else { flat(0.03) }); }
    RcMarketData::new(Arc::new(MarketData::new(base(), spots, rates, borrow, dv, vols)))
}
fn fixings(g: &mut Rng) -> RcFixingTable {
    let mut t = FixingTable::new(date(g));
    for id in ["BP.L", "GSK.L", "Z"].iter() {
        if g.below(4) == 0 { continue }
        let mut v: Vec<(DateTime, f64)> = vec![];
        for _ in 0..g.below(5) { let m = moment(g); if v.iter().all(|x| x.0 != m) { v.push((m, 80.0 + 40.0 * g.unit())) } }
        t.insert(id, Fixings::new(id, &v).unwrap()).unwrap();
    }
    RcFixingTable::new(Arc::new(t))
}
fn model(g: &mut Rng) -> RcMonteCarloModelFactory { Qrc::new(Arc::new(BlackDiffusionFactory::new(g.below(30) as usize, g.unit(), g.below(1000) as usize))) }
fn factory(g: &mut Rng) -> RcPricerFactory {
    if g.below(2) == 0 { Qrc::new(Arc::new(SelfPricerFactory::new())) } else { let m = model(g); Qrc::new(Arc::new(MonteCarloPricerFactory::new(m))) }
}
fn dynamics(g: &mut Rng) -> SpotDynamics { *g.pick(&[SpotDynamics::StickySpot, SpotDynamics::StickyForward]) }
fn vol_bump(g: &mut Rng) -> BumpVol {
    match g.below(3) { 0 => BumpVol::new_flat_additive(0.005 + g.unit() * 0.02), 1 => BumpVol::new_time_scaled(0.005 + g.unit() * 0.02, g.unit()), _ => BumpVol::new_replace(0.2 + g.unit() * 0.1) }
}
fn date_bump(g: &mut Rng) -> BumpSpotDate { BumpSpotDate::new(base() + g.range(0, 9) as i32, dynamics(g)) }
fn time_bump(g: &mut Rng) -> BumpTime { let d = base() + g.range(0, 9) as i32; BumpTime::new(d, d - g.range(0, 2) as i32, dynamics(g)) }
fn generator(g: &mut Rng) -> RcReportGenerator {
    match g.below(4) {
        0 => Qrc::new(Arc::new(DeltaGammaReportGenerator::new(0.005 + g.unit() * 0.02))),
        1 => Qrc::new(Arc::new(VegaVolgaReportGenerator::new(vol_bump(g)))),
        _ => {
            let mut t = TimeBumpedReportGenerator::new(time_bump(g));
            for _ in 0..g.below(3) { let s = generator(g); t.add(s); }
            Qrc::new(Arc::new(t))
        }
    }
}
fn good_market() -> MarketData {
    let c: RcCalendar = Qrc::new(Arc::new(WeekdayCalendar::new()));
    let flat = |r: f64| -> RcRateCurve { Qrc::new(Arc::new(RateCurveAct365::new(base(), &[(base(), r), (base() + 1000, r)], Extrap::Flat, Extrap::Flat).unwrap())) };
    let all = ["BP.L", "GSK.L", "Z"];
    MarketData::new(base(),
        all.iter().enumerate().map(|(k, x)| (x.to_string(), 100.0 + k as f64)).collect(),
        ["LSE", "OPT"].iter().map(|x| (x.to_string(), flat(0.03))).collect(),
        all.iter().map(|x| (x.to_string(), flat(0.01))).collect(),
        all.iter().map(|x| (x.to_string(), RcDividendStream::new(Arc::new(DividendStream::new(&[Dividend::new(1.0, 0.01, base() + 20, base() + 30)], Qrc::new(Arc::new(ZeroRateCurve::new(base() + 25)))))))).collect(),
        all.iter().map(|x| (x.to_string(), { let v: RcVolSurface = Qrc::new(Arc::new(FlatVolSurface::new(0.25, c.clone(), DateDayFraction::new(base(), 0.1)))); v })).collect())
}
fn portfolio() -> RcInstrument {
    let e = |id: &str| rc(Equity::new(id, "LSE", gbp(), settlement(2)));
    let o = rc(SpotStartingEuropean::new("O", "OPT", e("BP.L"), settlement(2), DateTime::new(base() + 90, TimeOfDay::Close), 99.0, PutOrCall::Call, OptionSettlement::Cash).unwrap());
    let f = rc(ForwardStartingEuropean::new("F", "OPT", e("GSK.L"), settlement(2), DateTime::new(base() + 120, TimeOfDay::Close), 1.01, DateTime::new(base() + 30, TimeOfDay::Open), PutOrCall::Put, OptionSettlement::Cash).unwrap());
    rc(Basket::new("P", "OPT", gbp(), settlement(2), vec![(1.0, o), (-2.5, f), (0.5, e("Z"))]).unwrap())
}
fn some_fixings() -> RcFixingTable {
    let mut t = FixingTable::new(base());
    for (k, id) in ["BP.L", "GSK.L", "Z"].iter().enumerate() {
        let v: Vec<(DateTime, f64)> = (-450..0).flat_map(|d| [TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close].iter().map(move |t| (DateTime::new(base() + d, *t), 90.0 + (d % 17) as f64 + k as f64)).collect::<Vec<_>>()).collect();
        t.insert(id, Fixings::new(id, &v).unwrap()).unwrap();
    }
    RcFixingTable::new(Arc::new(t))
}
fn priced(f: &dyn pricers::Factory, x: &RcInstrument, fix: &RcFixingTable, m: &RcMarketData) -> Value {
    tell(|| { let p = f.make(x, fix, m)?; p.price() })
}
mod pricers {
    use super::*;
    pub trait Factory { fn make(&self, x: &RcInstrument, fix: &RcFixingTable, m: &RcMarketData) -> Result<Box<dyn Pricer>, qm::Error>; }
    impl Factory for RcPricerFactory {
        fn make(&self, x: &RcInstrument, fix: &RcFixingTable, m: &RcMarketData) -> Result<Box<dyn Pricer>, qm::Error> { self.new(x.clone(), fix.clone(), m.clone()) }
    }
}
fn own() -> RcPricerFactory { Qrc::new(Arc::new(SelfPricerFactory::new())) }
fn figures(gens: &[RcReportGenerator]) -> Vec<BoxReport> {
    facade::calculate(own(), portfolio(), some_fixings(), RcMarketData::new(Arc::new(good_market())), gens).unwrap_or_else(|e| fatal(&e.to_string()))
}
fn reports(g: &mut Rng) -> Vec<BoxReport> {
    let gens: Vec<RcReportGenerator> = (0..g.below(3)).map(|_| generator(g)).collect();
    let v = figures(&gens);
    // what is not a number cannot be written, see replaced
    if serde_json::to_string(&v).unwrap().contains("null") { reports(g) } else { v }
}
/// The vega of a replacement volatility has no size.
fn replaced(r: &mut Report) {
    let g: RcReportGenerator = Qrc::new(Arc::new(VegaVolgaReportGenerator::new(BumpVol::new_replace(0.3))));
    let text = serde_json::to_string(&figures(&[g])).unwrap();
    let got = guarded(|| facade::reports_from_json(&mut text.as_bytes()).map(|v| serde_json::to_string(&v).unwrap()).map_err(|e| e.to_string()));
    r.check(got == Ok(Ok(text.clone())), "not-a-number", &json!({"kind": "reports", "bump": "Replace"}), || format!("{} is read as {:?}", text, got));
}
fn report(g: &mut Rng) -> BoxReport {
    for _ in 0..1000 { if let Some(x) = reports(g).pop() { return x } }
    fatal("no report")
}

// ---- what they say when asked

fn tell<F: FnOnce() -> Result<f64, qm::Error>>(f: F) -> Value {
    match guarded(f) { Ok(Ok(x)) if x.is_finite() => json!(x), Ok(Ok(x)) => json!(format!("{}", x)), Ok(Err(e)) => json!(e.to_string()), Err(p) => json!(p) }
}
fn when() -> Vec<Date> { (-30..60).map(|k| base() + k * 13).collect() }
fn ask_calendar(c: &RcCalendar) -> Value {
    let v: Vec<Value> = when().iter().map(|d| json!([c.is_holiday(*d), c.day_weight(*d), tell(|| Ok(c.count_business_days(base(), 0.25, *d, 0.5))),
        tell(|| Ok((c.step(*d, 2, true) - base()) as f64)), tell(|| Ok((c.step(*d, -3, false) - base()) as f64))])).collect();
    json!([c.name(), c.get_type_id(), c.standard_basis(), v])
}
fn ask_rule(c: &RcDateRule) -> Value { json!((0..70).map(|k| tell(|| Ok((c.apply(base() + k) - base()) as f64))).collect::<Vec<_>>()) }
fn ask_curve(c: &RcRateCurve) -> Value { json!([c.base_date().to_string(), when().iter().map(|d| tell(|| c.rt(*d))).collect::<Vec<_>>()]) }
fn ask_divs(c: &RcDividendStream) -> Value {
    let z = |r: f64| -> RcRateCurve { Qrc::new(Arc::new(RateCurveAct365::new(base(), &[(base(), r)], Extrap::Flat, Extrap::Flat).unwrap())) };
    let f = guarded(|| EquityForward::new(base(), 100.0, settlement(2), z(0.03), z(0.01), c, base() + 700).map_err(|e| e.to_string()));
    let y: Vec<Value> = when().iter().map(|d| tell(|| c.div_yield().rt(*d))).collect();
    match f {
        Ok(Ok(f)) => json!([y, c.last_cash_ex_date().to_string(), when().iter().filter(|d| **d >= base()).map(|d| json!([tell(|| f.forward(*d)), tell(|| f.fixed_divs_after(*d))])).collect::<Vec<_>>()]),
        Ok(Err(e)) => json!([y, e]),
        Err(e) => json!([y, e]),
    }
}
fn ask_vol(c: &RcVolSurface) -> Value {
    let v: Vec<Value> = (0..20).map(|k| {
        let d = DateDayFraction::new(base() + k * 11, 0.3);
        let mut out = [0.0; 3];
        let t = tell(|| c.volatilities(d, &[70.0, 100.0, 133.0], &mut out));
        json!([t, out.iter().map(|x| tell(|| Ok(*x))).collect::<Vec<_>>(), tell(|| c.displacement(d.date())), match c.forward() { Some(f) => tell(|| f.interpolate(d.date())), None => json!("none") }])
    }).collect();
    json!([v, c.base_date().date().to_string(), c.base_date().day_fraction(), c.calendar().name(), format!("{:?}", c.div_assumptions())])
}
fn ask_currency(c: &RcCurrency) -> Value { json!([c.id(), ask_rule(quantmath::instruments::Instrument::settlement(&**c))]) }
fn ask_instrument(x: &RcInstrument) -> Value {
    let mut d = DependencyCollector::new(base());
    let need = match x.dependencies(&mut d) { SpotRequirement::NotRequired => "none", _ => "some" };
    let mut list: Vec<Value> = d.instruments_iter().map(|(id, y)| {
        let mut f: Vec<String> = d.fixings(id).iter().map(|t| t.to_string()).collect();
        f.sort();
        json!([id, d.forward_curve_hwm(y).map(|d| d.to_string()), d.vol_surface_hwm(y).map(|d| d.to_string()), f])
    }).collect();
    list.sort_by_key(|v| v.to_string());
    let m = RcMarketData::new(Arc::new(good_market()));
    let fixed = match guarded(|| x.fix(&some_fixings()).map_err(|e| e.to_string())) {
        Ok(Ok(None)) => json!("nothing"),
        Ok(Ok(Some(v))) => json!(v.iter().map(|(w, y)| json!([w, serde_json::to_value(y).unwrap()])).collect::<Vec<_>>()),
        Ok(Err(e)) => json!(e), Err(e) => json!(e),
    };
    json!([x.id(), x.get_type_id(), x.credit_id(), x.payoff_currency().id(), ask_rule(x.settlement()), need, list, priced(&own(), x, &some_fixings(), &m), fixed,
        x.is_pure_rates(), x.is_driftless(), tell(|| x.time_to_day_fraction(DateTime::new(base(), TimeOfDay::Close)).map(|d| d.day_fraction()))])
}
fn ask_market(m: &RcMarketData) -> Value {
    let p = portfolio();
    let one = |id: &str| { let e = rc(Equity::new(id, "LSE", gbp(), settlement(2)));
        json!([tell(|| m.spot(id)), tell(|| m.forward_curve(&*e, base() + 200)?.forward(base() + 100)),
            tell(|| { let v = m.vol_surface(&*e, base() + 200, &|| m.forward_curve(&*e, base() + 200))?; let mut o = [0.0]; v.volatilities(DateDayFraction::new(base() + 100, 0.5), &[101.0], &mut o)?; Ok(o[0]) })]) };
    json!([m.spot_date().to_string(), one("BP.L"), one("GSK.L"), one("Z"), tell(|| m.yield_curve("LSE", base() + 100)?.rt(base() + 100)), tell(|| m.yield_curve("OPT", base() + 100)?.rt(base() + 100)),
        priced(&own(), &p, &some_fixings(), m)])
}
fn ask_fixings(t: &RcFixingTable) -> Value {
    let mut v = vec![];
    for id in ["BP.L", "GSK.L", "Z"].iter() {
        for d in -450..950 {
            for t0 in [TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close].iter() {
                if let Some(x) = t.get_optional(id, DateTime::new(base() + d, *t0)) { v.push(json!([id, d, format!("{:?}", t0), x])) }
            }
        }
    }
    json!([t.fixings_known_until().to_string(), v])
}
fn ask_factory(f: &RcPricerFactory) -> Value {
    // Monte-Carlo prices are drawn afresh
    if f.get_type_id() != "SelfPricerFactory" { return json!(f.get_type_id()) }
    priced(f, &portfolio(), &some_fixings(), &RcMarketData::new(Arc::new(good_market())))
}
fn ask_model(f: &RcMonteCarloModelFactory) -> Value { json!(f.get_type_id()) }
fn ask_generator(x: &RcReportGenerator) -> Value {
    match guarded(|| facade::calculate(own(), portfolio(), some_fixings(), RcMarketData::new(Arc::new(good_market())), &[x.clone()]).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => v, Ok(Err(e)) => json!(e), Err(e) => json!(e),
    }
}
fn ask_vol_bump(b: &BumpVol) -> Value {
    let c: RcCalendar = Qrc::new(Arc::new(WeekdayCalendar::new()));
    ask_vol(&b.apply(Qrc::new(Arc::new(FlatVolSurface::new(0.25, c, DateDayFraction::new(base(), 0.1))))))
}
fn ask_date_bump(b: &BumpSpotDate) -> Value { json!([b.spot_date().to_string(), format!("{:?}", b.spot_dynamics())]) }
fn ask_time_bump(b: &BumpTime) -> Value {
    let mut t = TimeBumpedReportGenerator::new(b.clone());
    t.add(Qrc::new(Arc::new(DeltaGammaReportGenerator::new(0.01))));
    ask_generator(&Qrc::new(Arc::new(t)))
}
fn ask_line(l: &Linear<Date>) -> Value { json!(when().iter().map(|d| tell(|| l.interpolate(*d))).collect::<Vec<_>>()) }
fn ask_spline(l: &CubicSpline<f64>) -> Value { json!((0..40).map(|k| tell(|| l.interpolate(50.0 + 3.3 * k as f64))).collect::<Vec<_>>()) }
fn ask_report(_: &BoxReport) -> Value { json!(0) }
fn ask_reports(_: &Vec<BoxReport>) -> Value { json!(0) }
fn ask_moment(d: &DateTime) -> Value { json!(d.to_string()) }

/// Prices and the like of numbers that were read back.
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => approx(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-7, 1.0),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| alike(v, w))),
        // errors quote numbers
        (Value::String(x), Value::String(y)) => x == y || x.contains(' ') && y.contains(' '),
        _ => a == b,
    }
}
/// The order of fixings is nobody's business.
fn settled(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, x)| {
            let mut x = settled(x);
            if k == "fixing_by_date" { if let Value::Array(a) = &mut x { a.sort_by_key(|y| y.to_string()) } }
            (k, x)
        }).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(settled).collect()),
        x => x,
    }
}

/// As the specification sees documents.
fn tree(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t": "null"}),
        Value::Bool(_) => json!({"t": "bool"}),
        Value::Number(n) => json!({"t": if n.is_u64() { "nat" } else if n.is_i64() { "int" } else { "num" }}),
        Value::String(x) => json!({"t": "str", "s": x, "d": x.len() == 10 && x.chars().enumerate().all(|(k, c)| if k == 4 || k == 7 { c == '-' } else { c.is_ascii_digit() })}),
        Value::Array(a) => json!({"t": "arr", "v": a.iter().map(tree).collect::<Vec<_>>()}),
        Value::Object(m) => json!({"t": "obj", "k": m.keys().collect::<Vec<_>>(), "v": m.values().map(tree).collect::<Vec<_>>()}),
    }
}

type Read<T> = fn(&[u8]) -> Result<T, String>;
fn err<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
fn routes<T: DeserializeOwned>(extra: Option<Read<T>>) -> Vec<(&'static str, Read<T>)> {
    let mut v: Vec<(&'static str, Read<T>)> = vec![
        ("text", |t| std::str::from_utf8(t).map_err(|e| e.to_string()).and_then(|t| err(serde_json::from_str(t)))),
        ("bytes", |t| err(serde_json::from_slice(t))),
        ("stream", |t| err(serde_json::from_reader(t))),
        ("value", |t| err(serde_json::from_slice::<Value>(t)).and_then(|v| err(serde_json::from_value(v)))),
    ];
    if let Some(x) = extra { v.push(("facade", x)) }
    v
}

/// Everything there is: f is called for each kind.
trait Visit { fn kind<T: Serialize + DeserializeOwned>(&mut self, name: &str, make: fn(&mut Rng) -> T, ask: fn(&T) -> Value, facade: Option<Read<T>>); }
fn all<V: Visit>(v: &mut V) {
    v.kind("calendar", calendar, ask_calendar, None);
    v.kind("rule", rule, ask_rule, None);
    v.kind("curve", curve, ask_curve, None);
    v.kind("divs", divs, ask_divs, None);
    v.kind("surface", surface, ask_vol, None);
    v.kind("currency", currency, ask_currency, Some(|t| err(facade::currency_from_json(&mut &t[..]))));
    v.kind("instrument", instrument, ask_instrument, Some(|t| err(facade::instrument_from_json(&mut &t[..], DedupControl::Inline, &[], DedupControl::Inline, &[]))));
    v.kind("market", market, ask_market, Some(|t| err(facade::market_data_from_json(&mut &t[..]))));
    v.kind("fixings", fixings, ask_fixings, Some(|t| err(facade::fixing_table_from_json(&mut &t[..]))));
    v.kind("factory", factory, ask_factory, Some(|t| err(facade::pricer_factory_from_json(&mut &t[..]))));
    v.kind("model", model, ask_model, None);
    v.kind("generator", generator, ask_generator, Some(|t| err(facade::report_generator_from_json(&mut &t[..]))));
    v.kind("report", report, ask_report, None);
    v.kind("reports", reports, ask_reports, Some(|t| err(facade::reports_from_json(&mut &t[..]))));
    v.kind("volbump", vol_bump, ask_vol_bump, None);
    v.kind("datebump", date_bump, ask_date_bump, None);
    v.kind("timebump", time_bump, ask_time_bump, None);
    v.kind("line", line, ask_line, None);
    v.kind("spline", spline, ask_spline, None);
    v.kind("moment", moment, ask_moment, None);
}

struct Recorder { r: Report, g: Rng, n: usize, docs: std::fs::File, trees: std::fs::File }
impl Visit for Recorder {
    fn kind<T: Serialize + DeserializeOwned>(&mut self, kind: &str, make: fn(&mut Rng) -> T, ask: fn(&T) -> Value, facade: Option<Read<T>>) {
        let r = &mut self.r;
        // afterwards more of those there were few of
        let mut seen: HashMap<String, usize> = HashMap::new();
        for k in 0..self.n * 8 {
            let x = make(&mut self.g);
            if let Ok(Value::Object(m)) = serde_json::to_value(&x) {
                let c = seen.entry(m.keys().next().cloned().unwrap_or_default()).or_default();
                *c += 1;
                if k >= self.n && (*c > 3 || m.len() > 1) { continue }
            } else if k >= self.n { continue }
            r.cases += 1;
            r.count(kind);
            let text = match guarded(|| serde_json::to_string(&x).map_err(|e| e.to_string())) {
                Ok(Ok(t)) => t,
                e => { r.fail("write", &json!({"kind": kind}), format!("{:?}", e)); continue }
            };
            let doc: Value = serde_json::from_str(&text).unwrap_or_else(|e| fatal(&format!("{}: {}", e, text)));
            let case = json!({"kind": kind, "doc": doc});
            writeln!(self.docs, "{}", case).unwrap();
            writeln!(self.trees, "{}", json!({"kind": kind, "doc": tree(&doc)})).unwrap();
            if text.len() > 100 { r.nontrivial += 1; }
            let (want, said) = (settled(doc), ask(&x));
            let pretty = serde_json::to_string_pretty(&x).unwrap();
            for (route, read) in routes(facade) {
                for t in [&text, &pretty] {
                    let y = match guarded(|| read(t.as_bytes())) {
                        Ok(Ok(y)) => y,
                        e => { r.fail(&format!("read-{}", route), &case, match e { Ok(Err(e)) => e, Err(p) => format!("panic: {}", p), _ => String::new() }); continue }
                    };
                    let again = settled(serde_json::to_value(&y).unwrap_or(Value::Null));
                    r.check(same_json(&again, &want), &format!("rewrite-{}", route), &case, || format!("written again as {}", again));
                    if t.len() == text.len() {
                        let says = ask(&y);
                        r.check(alike(&says, &said), &format!("behaves-{}", route), &case, || {
                            if let (Value::Array(a), Value::Array(b)) = (&said, &says) {
                                let k = a.iter().zip(b).position(|(a, b)| !alike(a, b)).unwrap_or(0);
                                return format!("answer {}: {} and read back {}", k, a[k], b[k]).chars().take(1500).collect()
                            }
                            format!("{} and read back {}", said, says).chars().take(1500).collect()
                        });
                    }
                }
                // cut short anywhere, or going on, it is not a document
                let b = text.as_bytes();
                let step = 1 + b.len() / 150;
                for n in (0..b.len()).filter(|n| n % step == 0 || *n + 3 > b.len()) {
                    let got = guarded(|| read(&b[..n]).is_ok());
                    r.check(got == Ok(false), &format!("cut-{}", route), &case, || format!("the first {} of {} bytes: {:?}", n, b.len(), got));
                }
                for more in ["}", "x", " {}", ",", "\"\"", " 1"] {
                    let got = guarded(|| read(format!("{}{}", text, more).as_bytes()).is_ok());
                    r.check(got == Ok(false), &format!("more-{}", route), &case, || format!("followed by {:?}: {:?}", more, got));
                }
            }
        }
    }
}
/// outs: documents, the same as trees; n of each kind
pub fn record(ins: &[String], seed: u64) -> Report {
    let mut v = Recorder { r: Report::new(), g: Rng::new(seed ^ 0x5e71a1), n: ins[2].parse().unwrap(), docs: std::fs::File::create(&ins[0]).unwrap(), trees: std::fs::File::create(&ins[1]).unwrap() };
    replaced(&mut v.r);
    all(&mut v);
    v.r
}

// ---- damaged documents

fn at<'a>(v: &'a mut Value, path: &[Value]) -> &'a mut Value {
    path.iter().fold(v, |v, p| match p {
        Value::String(k) if v.is_object() => v.get_mut(k).unwrap_or_else(|| fatal(&format!("no {}", k))),
        p => v.get_mut(s(p).parse::<usize>().unwrap_or_else(|_| fatal("path")) - 1).unwrap_or_else(|| fatal("path")),
    })
}
fn damage(doc: &Value, d: &Value) -> Value {
    let mut doc = doc.clone();
    let arg = &d["arg"];
    let x = at(&mut doc, arr(&d["path"]));
    match s(&d["op"]) {
        "same" | "reverse" | "spaced" | "integers" => {}
        "drop" => { x.as_object_mut().unwrap().remove(s(arg)); }
        "tag" => { let m = x.as_object_mut().unwrap(); let k = m.keys().next().unwrap().clone(); let b = m.remove(&k).unwrap(); m.insert(s(arg).to_string(), b); }
        "lower" => { let m = x.as_object_mut().unwrap(); let k = m.keys().next().unwrap().clone(); let b = m.remove(&k).unwrap(); m.insert(k.to_lowercase(), b); }
        "two" => { let m = x.as_object_mut().unwrap(); let b = m.values().next().unwrap().clone(); m.insert(s(arg).to_string(), b); }
        "untag" => { let b = x.as_object().unwrap().values().next().unwrap().clone(); *x = b; }
        "wrap" => { let b = x.clone(); *x = json!([b]); }
        "name" => *x = arg.clone(),
        "put" => *x = match s(arg) {
            "string" => json!("zz"), "number" => json!(0.375), "half" => json!(2.5), "minus" => json!(-3), "three" => json!(3), "zero" => json!(0.0), "big" => json!(1e250), "tiny" => json!(1e-250), "negative" => json!(-0.25), "bool" => json!(true), "null" => Value::Null,
            "empty" => json!({}), "list" => json!([]), "nest" => json!([[]]), "day" => json!("2018-07-23"), "baddate" => json!("2018-02-30"), "shortdate" => json!("2018-02"),
            a => fatal(a),
        },
        "less" => { x.as_array_mut().unwrap().pop(); }
        "longer" => { let a = x.as_array_mut().unwrap(); let y = a.last().unwrap().clone(); a.push(y); }
        "swap" => { let a = x.as_array_mut().unwrap(); let n: usize = s(arg).parse().unwrap(); a.swap(n - 1, n); }
        "case" => { let t = s(x).to_lowercase(); *x = json!(t); }
        o => fatal(o),
    }
    doc
}
/// Keys the other way round, room between everything, whole numbers as such
fn render(v: &Value, how: &str) -> String {
    let gap = if how == "spaced" { " \n\t\r " } else { "" };
    match v {
        Value::Object(m) => {
            let mut f: Vec<String> = m.iter().map(|(k, x)| format!("{}{}:{}{}", json!(k), gap, gap, render(x, how))).collect();
            if how == "reverse" { f.reverse() }
            format!("{{{}{}{}}}", gap, f.join(&format!("{},{}", gap, gap)), gap)
        }
        Value::Array(a) => format!("[{}{}{}]", gap, a.iter().map(|x| render(x, how)).collect::<Vec<_>>().join(&format!("{},{}", gap, gap)), gap),
        Value::Number(n) if how == "integers" && n.as_f64().map_or(false, |x| x.fract() == 0.0 && x.abs() < 1e15) => format!("{}", n.as_f64().unwrap() as i64),
        x => x.to_string(),
    }
}
struct Replay { r: Report, work: HashMap<String, Vec<(Value, Value)>> }
impl Visit for Replay {
    fn kind<T: Serialize + DeserializeOwned>(&mut self, kind: &str, _: fn(&mut Rng) -> T, _: fn(&T) -> Value, facade: Option<Read<T>>) {
        let r = &mut self.r;
        for (doc, d) in self.work.remove(kind).unwrap_or_default() {
            r.cases += 1;
            r.count(s(&d["op"]));
            let bad = damage(&doc, &d);
            let text = render(&bad, s(&d["op"]));
            let case = json!({"kind": kind, "op": d["op"], "arg": d["arg"], "path": d["path"], "doc": bad});
            if r.cases % 997 == 5 { r.sample(json!({"kind": kind, "op": d["op"], "arg": d["arg"], "path": d["path"]})); }
            if d["op"] != "same" { r.nontrivial += 1; }
            for (route, read) in routes(facade) {
                if route == "bytes" || route == "stream" && facade.is_some() { continue }
                match (guarded(|| read(text.as_bytes())), s(&d["r"])) {
                    (Err(p), _) => r.fail(&format!("panic-{}", route), &case, p),
                    (Ok(Ok(x)), "no") => r.fail(&format!("accepted-{}-{}", s(&d["op"]), route), &case, format!("read as {}", serde_json::to_string(&x).unwrap_or_default())),
                    (Ok(_), "open") | (Ok(Err(_)), "no") | (Ok(Err(_)), "may") => r.checks += 1,
                    (Ok(Ok(x)), _) => { let y = settled(serde_json::to_value(&x).unwrap_or(Value::Null)); r.check(same_json(&y, &settled(bad.clone())), &format!("changed-{}", route), &case, || y.to_string()); }
                    (Ok(Err(e)), _) => r.fail(&format!("refused-{}", route), &case, e),
                }
            }
        }
    }
}
/// ins: documents, damages
pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut docs = vec![];
    each_line(&ins[0], |v| docs.push(v));
    let mut work: HashMap<String, Vec<(Value, Value)>> = HashMap::new();
    each_line(&ins[1], |d| {
        let v = &docs[i(&d["n"]) as usize - 1];
        work.entry(s(&v["kind"]).to_string()).or_default().push((v["doc"].clone(), d));
    });
    let mut v = Replay { r: Report::new(), work };
    all(&mut v);
    if let Some(k) = v.work.keys().next() { fatal(k) }
    v.r
}
