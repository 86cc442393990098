//! Builds markets and instruments from the worlds the specifications read.

use crate::calendars::day;
use crate::curves::make_curve;
use crate::forwards::{make_divs, settlement};
use crate::util::*;
use crate::term::{bind_after, eval_in};
use crate::vols::{judge_in, make_surface};
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::dates::calendar::RcCalendar;
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::core::dedup::InstanceId;
use quantmath::core::factories::TypeId;
use quantmath::data::volsurface::{VolForwardDynamics, VolTimeDynamics};
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::rules::RcDateRule;
use quantmath::dates::Date;
use quantmath::instruments::{DependencyContext, Instrument, Priceable, PricingContext, RcInstrument, SpotRequirement};
use quantmath::risk::marketdata::MarketData;
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;

pub fn time(t: &Value) -> TimeOfDay {
    match i(t) { 0 => TimeOfDay::Open, 1 => TimeOfDay::EDSP, _ => TimeOfDay::Close }
}
pub fn date_time(d: &Value, t: &Value) -> DateTime {
    DateTime::new(day(d), time(t))
}

pub fn rc<T: Instrument + 'static>(x: T) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(x)))
}

pub fn sterling() -> RcCurrency {
    RcCurrency::new(Arc::new(Currency::new("GBP", settlement(2))))
}

/// The instruments of a list; others refer to them by their place (from one).
pub fn make_instruments(list: &Value) -> Vec<RcInstrument> {
    let mut out: Vec<RcInstrument> = vec![];
    for q in arr(list) {
        let x = make_instrument(q, &out).unwrap_or_else(|e| fatal(&format!("instrument {}: {}", q, e)));
        out.push(x);
    }
    out
}

pub fn make_instrument(q: &Value, known: &[RcInstrument]) -> Result<RcInstrument, qm::Error> {
    let at = |n: &Value| known[i(n) as usize - 1].clone();
    let (id, lag) = (s(&q["id"]), settlement(i(&q["lag"])));
    let credit = || s(&q["credit"]);
    let put = || if q["put"] == true { PutOrCall::Put } else { PutOrCall::Call };
    let phys = || if q["phys"] == true { OptionSettlement::Physical } else { OptionSettlement::Cash };
    Ok(match s(&q["kind"]) {
        "ccy" => rc(Currency::new(id, lag)),
        "credit" => rc(CreditEntity::new(id, sterling(), lag)),
        "equity" if q.get("dyn").is_some() => rc(Follower { inner: Equity::new(id, credit(), sterling(), lag), how: s(&q["dyn"]).to_string() }),
        "watch" => rc(Watch { id: id.to_string(), credit: credit().to_string(), currency: Currency::new("GBP", settlement(2)), settlement: lag, underlying: at(&q["u"]), date: day(&q["ed"]) }),
        "equity" => rc(Equity::new(id, credit(), sterling(), lag)),
        "zero" => rc(ZeroCoupon::new(id, credit(), sterling(), date_time(&q["ed"], &q["et"]), day(&q["pay"]), lag)),
        "basket" => {
            let members = arr(&q["ws"]).iter().zip(arr(&q["ms"])).map(|(w, m)| (i(w) as f64 / 100.0, at(m))).collect();
            rc(Basket::new(id, credit(), sterling(), lag, members)?)
        }
        "spot" => rc(SpotStartingEuropean::new(id, credit(), at(&q["u"]), lag, date_time(&q["ed"], &q["et"]),
            i(&q["k"]) as f64 / 100.0, put(), phys())?),
        "fwd" => rc(ForwardStartingEuropean::new(id, credit(), at(&q["u"]), lag, date_time(&q["ed"], &q["et"]),
            i(&q["frac"]) as f64 / 10000.0, date_time(&q["sd"], &q["st"]), put(), phys())?),
        k => fatal(k),
    })
}

/// An equity of the user's own, whose volatilities roll with the date or follow the forward.
#[derive(Debug)]
struct Follower { inner: Equity, how: String }
impl serde::Serialize for Follower {
    fn serialize<S: serde::Serializer>(&self, x: S) -> Result<S::Ok, S::Error> { x.serialize_str(self.id()) }
}
impl TypeId for Follower { fn get_type_id(&self) -> &'static str { "Follower" } }
impl InstanceId for Follower { fn id(&self) -> &str { self.inner.id() } }
impl Instrument for Follower {
    fn payoff_currency(&self) -> &Currency { self.inner.payoff_currency() }
    fn credit_id(&self) -> &str { self.inner.credit_id() }
    fn settlement(&self) -> &RcDateRule { self.inner.settlement() }
    fn dependencies(&self, c: &mut dyn DependencyContext) -> SpotRequirement { self.inner.dependencies(c) }
    fn time_to_day_fraction(&self, d: DateTime) -> Result<DateDayFraction, qm::Error> { self.inner.time_to_day_fraction(d) }
    fn as_priceable(&self) -> Option<&dyn Priceable> { self.inner.as_priceable() }
    fn vol_time_dynamics(&self) -> VolTimeDynamics { if self.how == "roll" { VolTimeDynamics::RollingExpiry } else { VolTimeDynamics::ConstantExpiry } }
    fn vol_forward_dynamics(&self) -> VolForwardDynamics { if self.how == "delta" { VolForwardDynamics::StickyDelta } else { VolForwardDynamics::StickyStrike } }
}

/// An instrument of the user's own that is worth what a forward is, and needs nothing else.
#[derive(Debug)]
struct Watch { id: String, credit: String, currency: Currency, settlement: RcDateRule, underlying: RcInstrument, date: Date }
impl serde::Serialize for Watch {
    fn serialize<S: serde::Serializer>(&self, x: S) -> Result<S::Ok, S::Error> { x.serialize_str(self.id()) }
}
impl TypeId for Watch { fn get_type_id(&self) -> &'static str { "Watch" } }
impl InstanceId for Watch { fn id(&self) -> &str { &self.id } }
impl Instrument for Watch {
    fn payoff_currency(&self) -> &Currency { &self.currency }
    fn credit_id(&self) -> &str { &self.credit }
    fn settlement(&self) -> &RcDateRule { &self.settlement }
    fn dependencies(&self, c: &mut dyn DependencyContext) -> SpotRequirement {
        c.forward_curve(&self.underlying, self.date);
        SpotRequirement::NotRequired
    }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
}
impl Priceable for Watch {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, c: &dyn PricingContext, _dates: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> {
        let x = c.forward_curve(&*self.underlying, self.date)?.forward(self.date)?;
        for o in out.iter_mut() { *o = x; }
        Ok(())
    }
}

fn entries(v: &Value) -> Vec<(String, &Value)> {
    v.as_object().unwrap_or_else(|| fatal("object")).iter().map(|(k, x)| (k.clone(), x)).collect()
}

pub fn make_market(w: &Value, cals: &[RcCalendar]) -> Result<MarketData, qm::Error> {
    let mut vols = HashMap::new();
    for (k, v) in entries(&w["vol"]) { vols.insert(k, make_surface(v, cals)?); }
    Ok(MarketData::new(day(&w["date"]),
        entries(&w["spot"]).into_iter().map(|(k, v)| (k, i(v) as f64 / 100.0)).collect(),
        entries(&w["rate"]).into_iter().map(|(k, v)| (k, make_curve(v))).collect(),
        entries(&w["borrow"]).into_iter().map(|(k, v)| (k, make_curve(v))).collect(),
        entries(&w["div"]).into_iter().map(|(k, v)| (k, make_divs(v))).collect(),
        vols))
}

/// An answer of the specification: a value, an error, or too close to call.
pub fn answer(defs: &Value, x: &Value) -> (Option<bool>, f64) {
    answer_after(vec![], defs, x)
}

/// Likewise, some names being bound already.
pub fn answer_after<'a>(env: Vec<(&'a str, f64)>, defs: &'a Value, x: &'a Value) -> (Option<bool>, f64) {
    let mut env = bind_after(env, defs, &x["l"]);
    (judge_in(defs, &x["c"], &mut env), eval_in(defs, &x["v"], &mut env))
}

/// Whether a price, or an error, is one the specification accepts.
pub fn acceptable(defs: &Value, got: &Result<Result<f64, String>, String>, results: &Value, rel: f64, floor: f64) -> bool {
    arr(results).iter().any(|x| match (answer(defs, x), got) {
        (_, Err(_)) => false,
        ((Some(false), _), Ok(Err(_))) | ((None, _), Ok(Err(_))) => true,
        ((Some(true), v), Ok(Ok(g))) | ((None, v), Ok(Ok(g))) => approx(*g, v, rel, floor),
        _ => false,
    })
}

pub fn show(defs: &Value, results: &Value) -> String {
    arr(results).iter().map(|x| match answer(defs, x) {
        (Some(false), _) => "an error; ".to_string(),
        (Some(true), v) => format!("{:?}; ", v),
        (None, v) => format!("{:?} or an error; ", v),
    }).collect()
}
