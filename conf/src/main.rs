//! Conformance harness: replays behaviours generated from the TLA+ specifications against
//! QuantMath, and records runs of QuantMath for the specifications to judge.
//!
//!   conf <module> --out RESULT.json [--seed N] [--tier quick|thorough] IN...

mod alloc;
mod black76;
mod calendars;
mod cint;
mod compare;
mod curves;
mod dates;
mod fixings;
mod forwards;
mod interp;
mod markets;
mod montecarlo;
mod pricing;
mod risk;
mod serial;
mod lifecycle;
mod dedup;
mod deps;
mod reports;
mod implied;
mod roots;
mod term;
mod util;
mod vols;

#[global_allocator]
static MEMORY: alloc::Watch = alloc::Watch;

fn main() {
    let mut args = std::env::args().skip(1);
    let module = args.next().unwrap_or_else(|| util::fatal("no module"));
    let (mut out, mut seed, mut ins) = (String::new(), 1u64, vec![]);
    let mut tier = "quick".to_string();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--out" => out = args.next().unwrap(),
            "--tier" => tier = args.next().unwrap(),
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            _ => ins.push(a),
        }
    }
    // panics of the code under test are observations
    if std::env::var("CONF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let thorough = tier == "thorough";
    let report = match module.as_str() {
        "fixings" => fixings::run(&ins, seed),
        "fixings-record" => fixings::record(&ins, seed, if thorough { 2000 } else { 100 }),
        "interp" => interp::run(&ins, seed),
        "curves" => curves::run(&ins, seed),
        "forwards" => forwards::run(&ins, seed),
        "black76" => black76::run(&ins, seed),
        "implied" => implied::run(&ins, seed),
        "roots" => roots::solve(&ins, seed, thorough),
        "pricing" => pricing::run(&ins, seed),
        "risk-undo" => risk::run(&ins, seed, "undo"),
        "risk-values" => risk::run(&ins, seed, "values"),
        "dedup" => dedup::run(&ins, seed),
        "cint" => cint::run(&ins, &out),
        "cint-child" => cint::child(&ins, seed),
        "serial-record" => serial::record(&ins, seed),
        "serial" => serial::run(&ins, seed),
        "compare" => compare::run(&ins, seed),
        "deps-record" => deps::record(&ins, seed),
        "montecarlo" => montecarlo::run(&ins, seed),
        "greeks" => reports::run(&ins, seed, "greeks"),
        "time" => reports::run(&ins, seed, "time"),
        "lifecycle" => lifecycle::run(&ins, seed),
        "vols" => vols::run(&ins, seed),
        "dates" => dates::run(&ins, seed),
        "cal-count" => calendars::count(&ins, seed),
        "cal-step" => calendars::step(&ins, seed),
        m => util::fatal(&format!("unknown module {}", m)),
    };
    report.write(&out);
}
