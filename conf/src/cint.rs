//! Replays Handles.tla (P18) on the C interface. The calls are made in a process of their own, so that
//! a crash is an observation, with an allocator that notices misuse of memory.

use crate::alloc::watched;
use crate::util::*;
use quantmath::core::dedup::DedupControl;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::{RateCurveAct365, RcRateCurve};
use quantmath::data::divstream::{DividendStream, RcDividendStream};
use quantmath::data::fixings::{FixingTable, RcFixingTable};
use quantmath::data::volsurface::{FlatVolSurface, RcVolSurface};
use quantmath::dates::calendar::{RcCalendar, WeekdayCalendar};
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::rules::{BusinessDays, RcDateRule};
use quantmath::dates::Date;
use quantmath::facade;
use quantmath::facade::c_interface::*;
use quantmath::instruments::assets::{Currency, Equity, RcCurrency};
use quantmath::instruments::basket::Basket;
use quantmath::instruments::options::{ForwardStartingEuropean, OptionSettlement, PutOrCall, SpotStartingEuropean};
use quantmath::instruments::RcInstrument;
use quantmath::math::interpolation::Extrap;
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::DeltaGammaReportGenerator;
use quantmath::risk::marketdata::{MarketData, RcMarketData};
use quantmath::risk::timebumped::TimeBumpedReportGenerator;
use quantmath::risk::vegavolga::VegaVolgaReportGenerator;
use quantmath::risk::{BoxReport, RcReportGenerator};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::ffi::{CStr, CString};
use std::path::PathBuf;
use std::sync::Arc;

fn d0() -> Date { Date::from_ymd(2018, 6, 1) }
fn settle() -> RcDateRule { RcDateRule::new(Arc::new(BusinessDays::new_step(RcCalendar::new(Arc::new(WeekdayCalendar())), 2))) }
fn text<T: serde::Serialize>(x: &T) -> String { serde_json::to_string(x).unwrap() }

/// What is read, by the name the specification knows it by.
fn source(name: &str, kind: &str) -> Vec<u8> {
    let gbp = RcCurrency::new(Arc::new(Currency::new("GBP", settle())));
    let equity = crate::markets::rc(Equity::new("BP.L", "LSE", gbp.clone(), settle()));
    let close = |n| DateTime::new(d0() + n, TimeOfDay::Close);
    let option = |id: &str| crate::markets::rc(SpotStartingEuropean::new(id, "OPT", equity.clone(), settle(), close(90), 95.0, PutOrCall::Call, OptionSettlement::Cash).unwrap());
    let flat = |r: f64| RcRateCurve::new(Arc::new(RateCurveAct365::new(d0(), &[(d0(), r), (d0() + 400, r)], Extrap::Flat, Extrap::Flat).unwrap()));
    let market = |spot: bool, vol: bool| {
        let (mut spots, mut rates, mut borrow, mut divs, mut vols) = (HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
        if spot { spots.insert("BP.L".to_string(), 100.0); }
        rates.insert("LSE".to_string(), flat(0.03));
        rates.insert("OPT".to_string(), flat(0.04));
        borrow.insert("BP.L".to_string(), flat(0.01));
        divs.insert("BP.L".to_string(), RcDividendStream::new(Arc::new(DividendStream::new(&[], flat(0.02)))));
        if vol {
            let v = FlatVolSurface::new(0.25, RcCalendar::new(Arc::new(WeekdayCalendar())), DateDayFraction::new(d0(), 0.2));
            vols.insert("BP.L".to_string(), RcVolSurface::new(Arc::new(v)));
        }
        text(&RcMarketData::new(Arc::new(MarketData::new(d0(), spots, rates, borrow, divs, vols))))
    };
    let fixings = |known: Date, some: &[(DateTime, f64)]| text(&RcFixingTable::new(Arc::new(FixingTable::from_fixings(known, &[("BP.L", some)]).unwrap())));
    let mc = |paths| text(&RcPricerFactory::new(Arc::new(MonteCarloPricerFactory::new(
        RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(if paths == 0 { 0 } else { 20 }, 0.01, paths)))))));
    let dg = || -> RcReportGenerator { RcReportGenerator::new(Arc::new(DeltaGammaReportGenerator::new(0.01))) };
    let named = |t: String, long: &str, short: &str| t.replace(long, &json!(short).to_string());
    match name {
        "gbp" => text(&gbp),
        "usd" => text(&RcCurrency::new(Arc::new(Currency::new("USD", settle())))),
        "equity" => text(&equity),
        "equity-name" => named(text(&equity), &text(&gbp), "GBP"),
        "option" => text(&option("O1")),
        "option-name" => named(text(&option("O2")), &text(&equity), "BP.L"),
        "option-both" => named(text(&option("O3")), &text(&gbp), "GBP"),
        "started" => text(&crate::markets::rc(ForwardStartingEuropean::new("O4", "OPT", equity, settle(), close(90), 1.02, close(-10), PutOrCall::Put, OptionSettlement::Physical).unwrap())),
        "basket" => {
            let b = crate::markets::rc(Basket::new("B1", "OPT", gbp.clone(), settle(), vec![(1.0, equity.clone()), (2.5, equity.clone())]).unwrap());
            named(named(text(&b), &text(&equity), "BP.L"), &text(&gbp), "GBP")
        }
        "full" => market(true, true),
        "novol" => market(true, false),
        "nospot" => market(false, true),
        "allfix" => fixings(d0(), &[(close(-10), 97.0)]),
        "nofix" => fixings(d0(), &[]),
        "self" => text(&RcPricerFactory::new(Arc::new(SelfPricerFactory::new()))),
        "mc" => mc(20),
        "mc-none" => mc(0),
        "dg" => text(&dg()),
        "vv" => text(&RcReportGenerator::new(Arc::new(VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(0.01))))),
        "tb" => {
            let mut t = TimeBumpedReportGenerator::new(BumpTime::new(d0() + 1, d0() + 1, SpotDynamics::StickyForward));
            let _ = BumpSpotDate::new(d0() + 1, SpotDynamics::StickyForward);
            t.add(dg());
            text(&RcReportGenerator::new(Arc::new(t)))
        }
        "results" => r#"[{"TimeBumpedReport":{"price":1.5,"theta":-0.25,"subreports":[{"DeltaGammaReport":{"bumpsize":0.01,"results":{"BP.L":{"delta":0.5,"gamma":0.01}}}}]}}]"#.to_string(),
        "cut" | "tag" | "trail" => {
            let whole = String::from_utf8(source(match kind {
                "currency" => "gbp", "instrument" => "option", "market" => "full", "fixings" => "allfix", "factory" => "mc", "generator" => "tb", _ => "results",
            }, "")).unwrap();
            match name {
                "cut" => whole[..whole.len() * 2 / 3].to_string(),
                "trail" => format!("{} {{}}", whole),
                _ => match kind {
                    "currency" => whole.replace("\"id\"", "\"identity\""),
                    "market" => whole.replace("\"spot_date\"", "\"date\""),
                    "fixings" => whole.replace("\"fixings_by_id\"", "\"by_id\""),
                    _ => whole.replace("SpotStartingEuropean", "SpotStartingBermudan").replace("MonteCarloPricerFactory", "MonteCarlo")
                        .replace("TimeBumpedReport", "TimeReport"),
                },
            }
        }
        "nul" => r#"{"Eq\u0000uity":{"id":1}}"#.to_string(),
        "bytes" => return b"{\"id\":\"\xff\xfe\"}".to_vec(),
        "deep" => "[".repeat(100000),
        x => x.to_string(),
    }.into_bytes()
}

fn control(m: &str) -> (DedupControl, QmDedupControl) {
    match m {
        "inline" => (DedupControl::Inline, QmDedupControl::QmInline),
        "missing" => (DedupControl::ErrorIfMissing, QmDedupControl::QmErrorIfMissing),
        _ => (DedupControl::WriteOnce, QmDedupControl::QmWriteOnce),
    }
}

/// What the library itself makes of the same calls.
#[derive(Clone)]
enum Held { Currency(RcCurrency), Instrument(RcInstrument), Market(RcMarketData), Fixings(RcFixingTable), Factory(RcPricerFactory), Generator(RcReportGenerator), Reports(Arc<Vec<BoxReport>>), Bad(String), Nothing }
fn bad(e: quantmath::core::qm::Error) -> Held { Held::Bad(e.to_string().trim_start_matches("rfin error: ").to_string()) }

fn string(p: *mut libc::c_char) -> String {
    let t = unsafe { CStr::from_ptr(p).to_string_lossy().into_owned() };
    qm_free_string(p);
    t
}

struct Stage<'a> { w: &'a Value, texts: &'a [Vec<u8>], files: &'a [PathBuf] }

fn load(kind: &str, via: &str, t: &[u8], file: &PathBuf) -> (u64, Held) {
    let c = CString::new(t.to_vec()).unwrap();
    let f = CString::new(file.to_str().unwrap()).unwrap();
    let s = &mut &t[..];
    macro_rules! both { ($file:ident, $string:ident, $lib:expr, $held:expr) => {
        (if via == "file" { $file(f.as_ptr()) } else { $string(c.as_ptr()) }, $lib(s).map($held).unwrap_or_else(bad))
    } }
    match kind {
        "currency" => both!(qm_currency_from_json_file, qm_currency_from_json_string, facade::currency_from_json, Held::Currency),
        "market" => both!(qm_market_data_from_json_file, qm_market_data_from_json_string, facade::market_data_from_json, Held::Market),
        "fixings" => both!(qm_fixing_table_from_json_file, qm_fixing_table_from_json_string, facade::fixing_table_from_json, Held::Fixings),
        "factory" => both!(qm_pricer_factory_from_json_file, qm_pricer_factory_from_json_string, facade::pricer_factory_from_json, Held::Factory),
        "generator" => both!(qm_report_generator_from_json_file, qm_report_generator_from_json_string, facade::report_generator_from_json, Held::Generator),
        "reports" => both!(qm_reports_from_json_file, qm_reports_from_json_string, facade::reports_from_json, |r| Held::Reports(Arc::new(r))),
        _ => instrument(via, "inline", t, file, &[], &[], &[], &[]),
    }
}
fn instrument(via: &str, mode: &str, t: &[u8], file: &PathBuf, cs: &[u64], is: &[u64], hc: &[Held], hi: &[Held]) -> (u64, Held) {
    let c = CString::new(t.to_vec()).unwrap();
    let f = CString::new(file.to_str().unwrap()).unwrap();
    let h = if via == "file" {
        qm_instrument_from_json_file(f.as_ptr(), control(mode).1, cs.len() as u32, cs.as_ptr(), control(mode).1, is.len() as u32, is.as_ptr())
    } else {
        qm_instrument_from_json_string(c.as_ptr(), control(mode).1, cs.len() as u32, cs.as_ptr(), control(mode).1, is.len() as u32, is.as_ptr())
    };
    let xc: Vec<RcCurrency> = hc.iter().filter_map(|x| if let Held::Currency(y) = x { Some(y.clone()) } else { None }).collect();
    let xi: Vec<RcInstrument> = hi.iter().filter_map(|x| if let Held::Instrument(y) = x { Some(y.clone()) } else { None }).collect();
    let lib = if xc.len() == hc.len() && xi.len() == hi.len() {
        facade::instrument_from_json(&mut &t[..], control(mode).0, &xc, control(mode).0, &xi).map(Held::Instrument).unwrap_or_else(bad)
    } else { Held::Nothing };
    (h, lib)
}

fn one(r: &mut Report, st: &Stage, line: &Value, quiet: bool) {
    let mut hs: Vec<(u64, Held, String, bool, String)> = vec![]; // handle, what it should hold, kind, live, message
    let hist = arr(&line["hist"]);
    for (n, h) in hist.iter().enumerate() {
        let case = || json!({"hist": hist[..=n].to_vec(), "names": arr(&st.w["texts"]).iter().map(|t| t["name"].clone()).collect::<Vec<_>>()});
        let args: Vec<usize> = arr(&h["args"]).iter().map(|x| i(x) as usize - 1).collect();
        let raw = |a: &[usize]| -> Vec<u64> { a.iter().map(|x| hs[*x].0).collect() };
        let held = |a: &[usize]| -> Vec<Held> { a.iter().map(|x| hs[*x].1.clone()).collect() };
        if !quiet { r.count(s(&h["a"])); }
        let mut new: Vec<(u64, Held)> = vec![];
        match s(&h["a"]) {
            "start" => for t in &args {
                new.push(load(s(&st.w["texts"][*t]["kind"]), "string", &st.texts[*t], &st.files[*t]));
            },
            "load" => new.push(load(s(&h["how"]["kind"]), s(&h["how"]["via"]), &st.texts[args[0]], &st.files[args[0]])),
            "nofile" => {
                let none = PathBuf::from("/nonexistent/file.json");
                new.push((if s(&h["how"]) == "instrument" { instrument("file", "inline", b"", &none, &[], &[], &[], &[]) } else { load(s(&h["how"]), "file", b"", &none) }.0, Held::Nothing));
            }
            "instrument" => {
                let (k, t) = (i(&h["how"]["ccys"]) as usize, i(&h["how"]["text"]) as usize - 1);
                new.push(instrument(s(&h["how"]["via"]), s(&h["how"]["mode"]), &st.texts[t], &st.files[t], &raw(&args[..k]), &raw(&args[k..]), &held(&args[..k]), &held(&args[k..])));
            }
            "calculate" => {
                let x = raw(&args);
                let got = qm_calculate(x[0], x[1], x[2], x[3], x.len() as u32 - 4, x[4..].as_ptr());
                let y = held(&args);
                let gens: Vec<RcReportGenerator> = y[4..].iter().filter_map(|g| if let Held::Generator(g) = g { Some(g.clone()) } else { None }).collect();
                let lib = match (&y[0], &y[1], &y[2], &y[3]) {
                    (Held::Factory(f), Held::Instrument(p), Held::Fixings(q), Held::Market(m)) if gens.len() + 4 == y.len() =>
                        match guarded(|| facade::calculate(f.clone(), p.clone(), q.clone(), m.clone(), &gens)) {
                            Ok(x) => x.map(|x| Held::Reports(Arc::new(x))).unwrap_or_else(bad),
                            Err(_) => Held::Nothing,
                        },
                    _ => Held::Nothing,
                };
                new.push((got, lib));
            }
            "compare" => {
                let (a, b) = (hs[args[0]].clone(), hs[args[1]].clone());
                let got = qm_assert_approx_eq_reports(a.0, b.0, 1e-3, 1e-3, 1e-3);
                let lib = match (&a.1, &b.1) {
                    (Held::Reports(x), Held::Reports(y)) => facade::assert_approx_eq_reports(x, y, 1e-3, 1e-3, 1e-3).is_ok(),
                    _ => false,
                };
                if !quiet && s(&h["r"][0]) == "verdict" {
                    r.check(qm_is_error(got) != lib, "verdict", &case(), || format!("comparison through handles says {}, directly {}", !qm_is_error(got), lib));
                }
                new.push((got, Held::Nothing));
                for a in &args { hs[*a].3 = false; hs[*a].1 = Held::Nothing; }
            }
            "clone" => new.push((qm_clone(hs[args[0]].0), if let Held::Reports(_) = hs[args[0]].1 { Held::Nothing } else { hs[args[0]].1.clone() })),
            "free" => {
                qm_free_handle(hs[args[0]].0);
                hs[args[0]].3 = false;
                hs[args[0]].1 = Held::Nothing;
            }
            "look" => {
                let x = &hs[args[0]];
                let (e, j) = (string(qm_error_string(x.0)), string(qm_reports_as_json_string(x.0)));
                if !quiet {
                    r.check(!e.is_empty() && !j.is_empty(), "no-text", &case(), || "an empty message".to_string());
                    r.check(e == x.4, "message", &case(), || format!("message {:?} was {:?} before", e, x.4));
                    match &x.1 {
                        Held::Reports(y) => {
                            let mut want = vec![];
                            facade::write_results(y, true, &mut want).unwrap();
                            let (a, b): (Value, Value) = (serde_json::from_str(&j).unwrap_or(Value::Null), serde_json::from_slice(&want).unwrap());
                            // Monte-Carlo draws its own random numbers each time
                            let random = hist[..n].iter().any(|h| h["a"] == "calculate") && random(st.w, hist, line);
                            r.check(if random { shape(&a) == shape(&b) } else { same_json(&a, &b) }, "reports", &case(), || format!("reports are {} and directly {}", a, b));
                        }
                        _ => { r.check(serde_json::from_str::<Value>(&j).map(|v| !v.is_array()).unwrap_or(true), "reports", &case(), || format!("no reports, but {}", j)); }
                    }
                }
            }
            a => fatal(a),
        }
        for (k, (u, lib)) in new.into_iter().enumerate() {
            let kind = s(&h["r"][k]);
            let e = qm_is_error(u);
            let msg = string(qm_error_string(u));
            if !quiet {
                if kind != "verdict" {
                    r.check(e == (kind == "error"), if e { "error" } else { "no-error" }, &case(), || format!("the specification says {}, the library {}", kind, if e { &msg } else { "all is well" }));
                    r.check(!msg.is_empty(), "no-text", &case(), || "an empty message".to_string());
                    let like = i(&h["like"]) as usize;
                    if e && like > 0 {
                        r.check(msg == hs[like - 1].4, "lost-message", &case(), || format!("the error handed on was {:?}, not {:?}", hs[like - 1].4, msg));
                    }
                    if let Held::Bad(direct) = &lib {
                        // a C string cannot hold every message as it stands
                        let same = if direct.contains('\0') { direct.split('\0').all(|t| msg.contains(t)) } else { msg == *direct };
                        r.check(!e || like > 0 || same, "message", &case(), || format!("message {:?}, directly {:?}", msg, direct));
                    }
                    r.check(e == match lib { Held::Nothing | Held::Bad(_) => true, _ => false }, "not-as-direct", &case(), || format!("through the interface {}", if e { &msg } else { "all is well" }));
                }
                if !e { r.nontrivial += 1; }
            }
            hs.push((u, lib, kind.to_string(), true, msg));
        }
    }
    for h in hs.iter().filter(|h| h.3) {
        qm_free_handle(h.0);
    }
}
/// Is there a Monte-Carlo factory about?
fn random(w: &Value, hist: &[Value], _: &Value) -> bool {
    hist.iter().any(|h| (h["a"] == "start" || h["a"] == "load") && arr(&h["args"]).iter().any(|t| w["texts"][i(t) as usize - 1]["name"] == "mc"))
}
/// Numbers left out.
fn shape(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), shape(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(shape).collect()),
        Value::Number(_) => json!(0),
        x => x.clone(),
    }
}

/// The process that makes the calls: world, histories, a file to say how far we are, first, last.
pub fn child(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let w: Value = serde_json::from_str(&std::fs::read_to_string(&ins[0]).unwrap()).unwrap();
    let (first, last): (usize, usize) = (ins[3].parse().unwrap(), ins[4].parse().unwrap());
    let texts: Vec<Vec<u8>> = arr(&w["texts"]).iter().map(|t| source(s(&t["name"]), s(&t["kind"]))).collect();
    let dir = PathBuf::from(format!("{}.texts", ins[2]));
    std::fs::create_dir_all(&dir).unwrap();
    let files: Vec<PathBuf> = texts.iter().enumerate().map(|(n, t)| { let f = dir.join(format!("{}.json", n)); std::fs::write(&f, t).unwrap(); f }).collect();
    let st = Stage { w: &w, texts: &texts, files: &files };
    let mut n = 0;
    each_line(&ins[1], |line| {
        n += 1;
        if n <= first || n > last { return; }
        std::fs::write(&ins[2], n.to_string()).unwrap();
        r.cases += 1;
        one(&mut r, &st, &line, false);
        // once more, for the sake of what is left in memory
        let (_, left) = watched(|| one(&mut Report::new(), &st, &line, true));
        r.check(left == 0, "leak", &json!({"hist": line["hist"]}), || format!("{} allocations are left when every handle has been freed", left));
        r.sample(line);
    });
    std::fs::remove_dir_all(&dir).unwrap();
    r
}

pub fn run(ins: &[String], out: &str) -> Report {
    let mut r = Report::new();
    // each history once
    let mut lines = BTreeSet::new();
    each_line(&ins[1], |l| { lines.insert(l.to_string()); });
    let all = format!("{}.lines", out);
    std::fs::write(&all, lines.iter().map(|l| format!("{}\n", l)).collect::<String>()).unwrap();
    let lines: Vec<String> = lines.into_iter().collect();
    let mut todo: Vec<(usize, usize)> = (0..lines.len()).step_by(400).map(|k| (k, (k + 400).min(lines.len()))).rev().collect();
    let (mut crashes, pos, part) = (0, format!("{}.pos", out), format!("{}.part", out));
    while let Some((a, b)) = todo.pop() {
        let _ = std::fs::remove_file(&part);
        // what the library prints goes nowhere, and cannot
        let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap_or_else(|e| fatal(&e.to_string()));
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&["cint-child", "--out", &part, &ins[0], &all, &pos, &a.to_string(), &b.to_string()])
            .stdout(full).stderr(std::process::Stdio::null()).status().unwrap();
        if st.success() {
            r.add(&serde_json::from_str(&std::fs::read_to_string(&part).unwrap()).unwrap());
        } else {
            let n: usize = std::fs::read_to_string(&pos).ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| fatal("the process making the calls did not start"));
            r.cases += 1;
            r.fail("crash", &serde_json::from_str(&lines[n - 1]).unwrap(), format!("the process ends with {}", st));
            crashes += 1;
            if crashes > 10 { break; }
            todo.push((n, b));
            if n - 1 > a { todo.push((a, n - 1)); }
        }
    }
    r
}
