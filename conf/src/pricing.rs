//! Replays Pricing.tla (P21).

use crate::calendars::make_calendar;
use crate::curves::read;
use crate::markets::*;
use crate::util::*;
use crate::vols::judge;
use quantmath::dates::datetime::DateTime;
use quantmath::instruments::RcInstrument;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::Pricer;

pub fn price(x: &RcInstrument, m: &MarketData, d: DateTime) -> Result<Result<f64, String>, String> {
    guarded(|| x.as_priceable().ok_or("not priceable".to_string()).and_then(|p| p.price(m, d).map_err(|e| e.to_string())))
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w = read(&ins[0]);
    let cals: Vec<_> = arr(&w["cals"]).iter().enumerate().map(|(n, c)| make_calendar(c, &format!("C{}", n + 1))).collect();
    let markets: Vec<_> = arr(&w["markets"]).iter().map(|m| (make_market(m, &cals), make_instruments(&m["insts"]))).collect();
    each_line(&ins[1], |mut v| {
        let (q, defs, cond, cdefs) = (v["q"].take(), v["defs"].take(), v["cond"].take(), v["cdefs"].take());
        let wi = i(&v["w"]) as usize - 1;
        let n = i(&v["n"]) as usize - 1;
        let (market, list) = &markets[wi];
        let facts = &w["markets"][wi]["insts"][n];
        v["inst"] = facts.clone();
        r.cases += 1;
        if r.cases % 97 == 77 { r.sample(v.clone()); }
        let market = match market {
            Ok(m) => m,
            Err(e) => {
                if n == 0 && !matches!(judge(&cdefs, &cond), Some(true)) { r.count("unbuildable"); }
                else if n == 0 { r.fail("market", &v, e.to_string()); }
                return
            }
        };
        let kind = s(&facts["kind"]);
        if kind != "ccy" && kind != "credit" { r.nontrivial += 1; }
        r.count(kind);
        let x = &list[n];
        let floor = 200.0;
        let mut alone = vec![];
        for k in arr(&q) {
            let d = date_time(&k["d"], &k["t"]);
            let got = price(x, market, d);
            r.check(acceptable(&defs, &got, &k["r"], 1e-9, floor), &format!("price-{}", kind), &v,
                || format!("at {:?}: library {:?}, specification {}", d, got, show(&defs, &k["r"])));
            if let Ok(Ok(_)) = got { r.count("priced") } else { r.count("refused") }
            let p = arr(&k["parity"]);
            if !p.is_empty() {
                let put = price(&list[i(&facts["twin"]) as usize - 1], market, d);
                if let (Ok(Ok(a)), Ok(Ok(b))) = (&got, &put) {
                    r.count("parity");
                    let both = Ok(Ok(a - b));
                    r.check(acceptable(&defs, &both, &k["parity"], 1e-9, floor), "parity", &v,
                        || format!("at {:?}: call {} put {}, difference should be {}", d, a, b, show(&defs, &k["parity"])));
                } else {
                    r.check(matches!((&got, &put), (Ok(Err(_)), Ok(Err(_)))), "parity-refusal", &v, || format!("call {:?}, put {:?}", got, put));
                }
            }
            alone.push((d, got));
        }
        // all at once
        let dates: Vec<_> = alone.iter().map(|a| a.0).collect();
        for upto in 1..dates.len() + 1 {
            let ds = &dates[..upto];
            let many = guarded(|| {
                let mut out = vec![f64::NAN; ds.len()];
                x.as_priceable().unwrap().prices(market, ds, &mut out).map(|_| out).map_err(|e| e.to_string())
            });
            let want: Vec<_> = alone[..upto].iter().filter_map(|a| a.1.clone().ok().and_then(|x| x.ok())).collect();
            let ok = match &many {
                Ok(Ok(out)) => want.len() == upto && out.iter().zip(&want).all(|(a, b)| approx(*a, *b, 1e-12, floor)),
                Ok(Err(_)) => want.len() < upto || kind == "equity" || kind == "basket",   // several dates need more than the spot
                Err(_) => false,
            };
            r.check(ok, "several-dates", &v, || format!("at once {:?}, alone {:?}", many, alone));
        }
        // as a pricer sees it
        let valued = &alone[0];
        if kind == "basket" || ((kind == "spot" || kind == "fwd") && w["markets"][wi]["insts"][i(&facts["u"]) as usize - 1]["kind"] == "basket") {
            return
        }
        let got = guarded(|| SelfPricer::new(vec![(2.5, x.clone()), (-0.5, x.clone())], market).and_then(|p| p.price()).map_err(|e| e.to_string()));
        let ok = match (&got, &valued.1) {
            (Ok(Ok(a)), Ok(Ok(b))) => approx(*a, 2.0 * b, 1e-11, floor),
            (Ok(Err(_)), Ok(Err(_))) => true,
            // a pricer wants all that the instrument declares, needed on the day or not
            (Ok(Err(_)), Ok(Ok(_))) => w["markets"][wi]["lacks"] == true,
            _ => false,
        };
        r.check(ok, "pricer", &v, || format!("pricer {:?}, twice {:?}", got, valued.1));
    });
    r
}
