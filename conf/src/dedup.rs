//! Replays Dedup.tla (P17): objects that share others, written and read in scopes on two threads.

use crate::util::*;
use quantmath::core::dedup::{dedup_map_from_slice, Dedup, DedupControl, InstanceId};
use quantmath::core::factories::Qrc;
use quantmath::dates::calendar::{RcCalendar, WeekdayCalendar};
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::dates::rules::{BusinessDays, RcDateRule};
use quantmath::dates::Date;
use quantmath::facade::instrument_from_json;
use quantmath::instruments::assets::{Currency, Equity, RcCurrency, DEDUP_CURRENCY};
use quantmath::instruments::basket::Basket;
use quantmath::instruments::options::{ForwardStartingEuropean, OptionSettlement, PutOrCall, SpotStartingEuropean};
use quantmath::instruments::{DependencyContext, Instrument, RcInstrument, DEDUP_INSTRUMENT};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::thread;

#[derive(Clone)]
enum Obj { Ccy(RcCurrency), Ins(RcInstrument) }
enum Scope { Ccy(Dedup<Currency, Arc<Currency>>), Ins(Dedup<dyn Instrument, Qrc<dyn Instrument>>) }
type Pool = Arc<Vec<Mutex<Option<Scope>>>>;

fn place(x: &Obj) -> usize {
    match x {
        Obj::Ccy(c) => &**c as *const Currency as usize,
        Obj::Ins(i) => &**i as *const dyn Instrument as *const u8 as usize,
    }
}
fn control(mode: &str) -> DedupControl {
    match mode {
        "inline" => DedupControl::Inline,
        "missing" => DedupControl::ErrorIfMissing,
        "once" => DedupControl::WriteOnce,
        m => fatal(&format!("mode {}", m)),
    }
}
fn mode(c: &DedupControl) -> &'static str {
    match c {
        DedupControl::Inline => "inline",
        DedupControl::ErrorIfMissing => "missing",
        DedupControl::WriteOnce => "once",
    }
}

struct World { objs: Vec<Obj>, json: Vec<Value>, types: HashMap<String, String>, ids: Arc<Vec<(String, String)>>, def: Value }

fn settle(step: u32) -> RcDateRule {
    RcDateRule::new(Arc::new(BusinessDays::new_step(RcCalendar::new(Arc::new(WeekdayCalendar())), step)))
}

fn build(def: &Value) -> World {
    let at = |y, m, d| DateTime::new(Date::from_ymd(y, m, d), TimeOfDay::Close);
    let mut objs: Vec<Obj> = vec![];
    let mut types = HashMap::new();
    let mut ids = BTreeSet::new();
    for (n, o) in arr(&def["objs"]).iter().enumerate() {
        let kids: Vec<Obj> = arr(&o["kids"]).iter().map(|k| objs[i(k) as usize - 1].clone()).collect();
        let ccy = |k: usize| match &kids[k] { Obj::Ccy(c) => c.clone(), _ => fatal("not a currency") };
        let ins = |k: usize| match &kids[k] { Obj::Ins(c) => c.clone(), _ => fatal("not an instrument") };
        let id = s(&o["id"]);
        types.insert(id.to_string(), s(&o["t"]).to_string());
        ids.insert((s(&o["k"]).to_string(), id.to_string()));
        let rule = settle(1 + n as u32 % 3);
        objs.push(match s(&o["t"]) {
            "ccy" => Obj::Ccy(RcCurrency::new(Arc::new(Currency::new(id, rule)))),
            "equity" => Obj::Ins(RcInstrument::new(Qrc::new(Arc::new(Equity::new(id, "LSE", ccy(0), rule))))),
            "basket" => {
                let b = Basket::new(id, "OPT", ccy(0), rule, (1..kids.len()).map(|k| (k as f64 * 0.5, ins(k))).collect());
                Obj::Ins(RcInstrument::new(Qrc::new(Arc::new(b.unwrap()))))
            }
            "spot" => {
                let x = SpotStartingEuropean::new(id, "OPT", ins(0), rule, at(2018, 12, 1), 100.0 + n as f64, PutOrCall::Call, OptionSettlement::Cash);
                Obj::Ins(RcInstrument::new(Qrc::new(Arc::new(x.unwrap()))))
            }
            "fwd" => {
                let x = ForwardStartingEuropean::new(id, "OPT", ins(0), rule, at(2018, 12, 1), 1.25, at(2018, 6, 8), PutOrCall::Put, OptionSettlement::Physical);
                Obj::Ins(RcInstrument::new(Qrc::new(Arc::new(x.unwrap()))))
            }
            t => fatal(t),
        });
    }
    let json = objs.iter().map(|o| serde_json::from_str(&write(o).unwrap()).unwrap()).collect();
    World { objs, json, types, ids: Arc::new(ids.into_iter().collect()), def: def.clone() }
}

fn write(o: &Obj) -> Result<String, String> {
    match o {
        Obj::Ccy(c) => serde_json::to_string(c).map_err(|e| e.to_string()),
        Obj::Ins(i) => serde_json::to_string(i).map_err(|e| e.to_string()),
    }
}
fn read(kind: &str, text: &str) -> Result<Obj, String> {
    if kind == "ccy" {
        serde_json::from_str::<RcCurrency>(text).map(Obj::Ccy).map_err(|e| e.to_string())
    } else {
        serde_json::from_str::<RcInstrument>(text).map(Obj::Ins).map_err(|e| e.to_string())
    }
}

/// The document of a tree, made of what the library writes inline.
fn render(w: &World, t: &Value) -> Value {
    if !t["full"].as_bool().unwrap() {
        return t["id"].clone();
    }
    let mut v = w.json[i(&t["c"]) as usize - 1].clone();
    let kids: Vec<Value> = arr(&t["kids"]).iter().map(|k| render(w, k)).collect();
    let ty = w.types[s(&t["id"])].as_str();
    if ty == "ccy" {
        return v;
    }
    let inner = v.as_object_mut().unwrap().values_mut().next().unwrap();
    match ty {
        "equity" => inner["currency"] = kids[0].clone(),
        "basket" => {
            inner["currency"] = kids[0].clone();
            for k in 1..kids.len() {
                inner["basket"][k - 1][1] = kids[k].clone();
            }
        }
        _ => inner["underlying"] = kids[0].clone(),
    }
    v
}
/// Text in which what a basket holds comes after the rest of it, as when the library writes it.
fn in_order(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let (mut a, mut b) = (vec![], vec![]);
            for (k, x) in m {
                (if k == "basket" { &mut b } else { &mut a }).push(format!("{}:{}", json!(k), in_order(x)));
            }
            a.append(&mut b);
            format!("{{{}}}", a.join(","))
        }
        Value::Array(x) => format!("[{}]", x.iter().map(in_order).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}
/// An object written out in full.
fn whole(w: &World, o: &Value) -> Value {
    fn tree(o: &Value) -> Value {
        json!({"full": true, "c": o["c"], "id": o["id"], "kids": arr(&o["kids"]).iter().map(tree).collect::<Vec<_>>()})
    }
    render(w, &tree(o))
}

/// The objects one can find from an instrument.
#[derive(Default)]
struct Finder { found: BTreeMap<String, BTreeSet<usize>> }
impl DependencyContext for Finder {
    fn spot_date(&self) -> Date { Date::from_ymd(2018, 6, 1) }
    fn yield_curve(&mut self, _: &str, _: Date) {}
    fn spot(&mut self, x: &RcInstrument) { self.note(x) }
    fn forward_curve(&mut self, x: &RcInstrument, _: Date) { self.note(x) }
    fn vol_surface(&mut self, x: &RcInstrument, _: Date) { self.note(x) }
    fn fixing(&mut self, _: &str, _: DateTime) {}
}
impl Finder {
    fn note(&mut self, x: &RcInstrument) {
        self.found.entry(x.id().to_string()).or_default().insert(place(&Obj::Ins(x.clone())));
        let c = x.payoff_currency();
        self.found.entry(c.id().to_string()).or_default().insert(c as *const Currency as usize);
    }
    fn of(x: &Obj) -> BTreeMap<String, BTreeSet<usize>> {
        let mut f = Finder::default();
        match x {
            Obj::Ccy(c) => { f.found.entry(c.id().to_string()).or_default().insert(place(x)); }
            Obj::Ins(n) => { f.note(n); n.dependencies(&mut f); }
        }
        f.found
    }
}
fn owed(w: &World, o: &Value, top: bool, out: &mut BTreeMap<String, BTreeSet<i64>>) {
    let mut add = |x: &Value| { out.entry(s(&x["id"]).to_string()).or_default().insert(i(&x["ser"])); };
    fn ccy<'a>(w: &World, o: &'a Value) -> &'a Value {
        match w.types[s(&o["id"])].as_str() { "ccy" => o, _ => ccy(w, &o["kids"][0]) }
    }
    if top {
        add(o);
        add(ccy(w, o));
    }
    let kids = arr(&o["kids"]);
    match w.types[s(&o["id"])].as_str() {
        "basket" => for k in &kids[1..] {
            owed(w, k, w.types[s(&k["id"])] == "equity", out);
        },
        "spot" | "fwd" => { add(&kids[0]); add(ccy(w, &kids[0])); }
        _ => {}
    }
}

enum Ask { Enter(usize), Leave(String, usize), Write(Obj), Read(String, String), With(String, String, String, Vec<Obj>, Vec<Obj>), View, Stop }
enum Reply { Done, Text(Result<String, String>), Object(Result<Obj, String>), View(Value) }
struct Worker { ask: Receiver<Ask>, reply: Sender<Reply>, pool: Pool, ids: Arc<Vec<(String, String)>> }

impl Worker {
    /// Serves until the scope we are in has to be left; returns how many are.
    fn serve(&self) -> usize {
        loop {
            let answer = match self.ask.recv() {
                Err(_) | Ok(Ask::Stop) => return usize::max_value(),
                Ok(Ask::Leave(how, n)) => {
                    if how == "panic" {
                        resume_unwind(Box::new(n));
                    }
                    return n;
                }
                Ok(Ask::Enter(d)) => {
                    let mut scope = self.pool[d].lock().unwrap().take().unwrap();
                    self.reply.send(Reply::Done).unwrap();
                    let end = catch_unwind(AssertUnwindSafe(|| match scope {
                        Scope::Ccy(ref mut x) => x.with(&DEDUP_CURRENCY, || self.serve()),
                        Scope::Ins(ref mut x) => x.with(&DEDUP_INSTRUMENT, || self.serve()),
                    }));
                    *self.pool[d].lock().unwrap() = Some(scope);
                    match end {
                        Ok(n) if n > 1 => return if n == usize::max_value() { n } else { n - 1 },
                        Err(p) => {
                            let n = *p.downcast::<usize>().unwrap_or_else(|_| fatal("an unexpected panic"));
                            if n > 1 {
                                resume_unwind(Box::new(n - 1));
                            }
                            Reply::Done
                        }
                        _ => Reply::Done,
                    }
                }
                Ok(Ask::Write(o)) => Reply::Text(guarded(|| write(&o)).unwrap_or_else(|p| Err(format!("panic: {}", p)))),
                Ok(Ask::Read(kind, text)) => Reply::Object(guarded(|| read(&kind, &text)).unwrap_or_else(|p| Err(format!("panic: {}", p)))),
                Ok(Ask::With(text, a, b, cs, is)) => {
                    let cs: Vec<RcCurrency> = cs.into_iter().filter_map(|x| if let Obj::Ccy(c) = x { Some(c) } else { None }).collect();
                    let is: Vec<RcInstrument> = is.into_iter().filter_map(|x| if let Obj::Ins(c) = x { Some(c) } else { None }).collect();
                    Reply::Object(guarded(|| instrument_from_json(&mut text.as_bytes(), control(&a), &cs, control(&b), &is).map(Obj::Ins).map_err(|e| e.to_string()))
                        .unwrap_or_else(|p| Err(format!("panic: {}", p))))
                }
                Ok(Ask::View) => {
                    let has = |kind: &str, f: &dyn Fn(&str) -> bool| -> Vec<String> {
                        self.ids.iter().filter(|(k, id)| k == kind && f(id)).map(|x| x.1.clone()).collect()
                    };
                    let ccy = DEDUP_CURRENCY.with(|t| { let t = t.borrow(); (mode(t.control()), has("ccy", &|id| t.contains_key(id))) });
                    let ins = DEDUP_INSTRUMENT.with(|t| { let t = t.borrow(); (mode(t.control()), has("ins", &|id| t.contains_key(id))) });
                    Reply::View(json!({"ccy": {"mode": ccy.0, "has": ccy.1}, "ins": {"mode": ins.0, "has": ins.1}}))
                }
            };
            self.reply.send(answer).unwrap();
        }
    }
}

pub fn run(ins: &[String], _seed: u64) -> Report {
    let mut r = Report::new();
    let def: Value = serde_json::from_str(&std::fs::read_to_string(&ins[0]).unwrap()).unwrap();
    let worlds: Vec<World> = arr(&def["worlds"]).iter().map(build).collect();
    let mut seen = BTreeSet::new();
    each_line(&ins[1], |line| {
        if seen.insert(line.to_string()) {
            one(&mut r, &worlds[i(&line["w"]) as usize - 1], &line);
        }
    });
    r
}

fn one(r: &mut Report, w: &World, line: &Value) {
    r.cases += 1;
    let pool: Pool = Arc::new(arr(&w.def["scopes"]).iter().map(|d| {
        let has: Vec<Obj> = arr(&d["has"]).iter().map(|k| w.objs[i(k) as usize - 1].clone()).collect();
        let c = control(s(&d["mode"]));
        Mutex::new(Some(if s(&d["k"]) == "ccy" {
            let v: Vec<RcCurrency> = has.into_iter().map(|x| match x { Obj::Ccy(c) => c, _ => fatal("kind") }).collect();
            Scope::Ccy(Dedup::new(c, dedup_map_from_slice(&v)))
        } else {
            let v: Vec<RcInstrument> = has.into_iter().map(|x| match x { Obj::Ins(c) => c, _ => fatal("kind") }).collect();
            Scope::Ins(Dedup::new(c, dedup_map_from_slice(&v)))
        }))
    }).collect());
    let supplied = |d: &Value| -> (String, Vec<Obj>) {
        let d = &w.def["scopes"][i(d) as usize - 1];
        (s(&d["mode"]).to_string(), arr(&d["has"]).iter().map(|k| w.objs[i(k) as usize - 1].clone()).collect())
    };
    let mut ends = vec![];
    let mut joins = vec![];
    for _ in 0..2 {
        let (ask, asked) = channel();
        let (reply, replies) = channel();
        let k = Worker { ask: asked, reply, pool: pool.clone(), ids: w.ids.clone() };
        joins.push(thread::spawn(move || { k.serve(); }));
        ends.push((ask, replies));
    }
    let ask = |t: usize, a: Ask| -> Reply {
        ends[t].0.send(a).unwrap();
        ends[t].1.recv().unwrap_or_else(|_| fatal("a thread is gone"))
    };
    let mut objs = w.objs.clone();
    let mut docs: Vec<(String, String)> = arr(&w.def["docs"]).iter().map(|t| (s(&t["k"]).to_string(), in_order(&render(w, t)))).collect();
    let mut at: HashMap<i64, usize> = objs.iter().enumerate().map(|(n, o)| (n as i64 + 1, place(o))).collect();

    'acts: for (n, h) in arr(&line["hist"]).iter().enumerate() {
        let t = i(&h["t"]) as usize - 1;
        let case = json!({"world": w.def, "hist": arr(&line["hist"])[..=n].to_vec()});
        let want = arr(&h["r"]).get(0);
        r.count(s(&h["a"]));
        match s(&h["a"]) {
            "enter" => { ask(t, Ask::Enter(i(&h["i"]) as usize - 1)); }
            how @ "return" | how @ "error" | how @ "panic" => { ask(t, Ask::Leave(how.to_string(), i(&h["i"]) as usize)); }
            "write" => {
                let Reply::Text(got) = ask(t, Ask::Write(objs[i(&h["i"]) as usize - 1].clone())) else { fatal("reply") };
                match (got, want) {
                    (Ok(text), Some(tree)) => {
                        r.nontrivial += 1;
                        let exp = render(w, tree);
                        let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
                        if !r.check(same_json(&v, &exp), "written", &case, || format!("written as {} where the specification has {}", text, exp)) { break 'acts; }
                        docs.push((s(&tree["k"]).to_string(), text));
                    }
                    (Err(_), None) => { r.checks += 1; }
                    (Ok(text), None) => { r.fail("not-refused", &case, format!("written as {} where it should have been refused", text)); break 'acts; }
                    (Err(e), Some(_)) => { r.fail("refused", &case, format!("writing refused: {}", e)); break 'acts; }
                }
            }
            what => {
                let (kind, text) = docs[i(&h["i"]) as usize - 1].clone();
                let a = if what == "read" { Ask::Read(kind, text.clone()) } else {
                    let (c, i) = (supplied(&h["j"][0]), supplied(&h["j"][1]));
                    Ask::With(text.clone(), c.0, i.0, c.1, i.1)
                };
                let Reply::Object(got) = ask(t, a) else { fatal("reply") };
                match (got, want) {
                    (Ok(o), Some(e)) => {
                        r.nontrivial += 1;
                        let v: Value = serde_json::from_str(&write(&o).unwrap_or_default()).unwrap_or(Value::Null);
                        let exp = whole(w, e);
                        if !r.check(same_json(&v, &exp), "content", &case, || format!("{} is read as {} where the specification has {}", text, v, exp)) { break 'acts; }
                        let mut owes = BTreeMap::new();
                        owed(w, e, true, &mut owes);
                        let found = Finder::of(&o);
                        let ok = same_places(&found, &owes, &mut at);
                        if !r.check(ok.is_ok(), "identity", &case, || format!("{} read: {}", text, ok.clone().unwrap_err())) { break 'acts; }
                        objs.push(o);
                    }
                    (Err(_), None) => { r.checks += 1; }
                    (Ok(o), None) => { r.fail("not-refused", &case, format!("{} read as {} where it should have been refused", text, write(&o).unwrap_or_default())); break 'acts; }
                    (Err(e), Some(_)) => { r.fail("refused", &case, format!("reading {} refused: {}", text, e)); break 'acts; }
                }
            }
        }
        for u in 0..arr(&h["view"]).len() {
            let Reply::View(v) = ask(u, Ask::View) else { fatal("reply") };
            let exp = &h["view"][u];
            for k in &["ccy", "ins"] {
                let has = |x: &Value| arr(&x["has"]).iter().map(|y| s(y).to_string()).collect::<BTreeSet<_>>();
                let ok = v[k]["mode"] == exp[k]["mode"] && (!exp[k]["sure"].as_bool().unwrap() || has(&v[k]) == has(&exp[k]));
                if !r.check(ok, "scope", &case, || format!("thread {} is in {} where the specification has {}", u + 1, v[k], exp[k])) { break 'acts; }
            }
        }
    }
    r.sample(line.clone());
    for e in &ends {
        let _ = e.0.send(Ask::Stop);
    }
    for j in joins {
        let _ = j.join();
    }
}

/// Same serial number, same object; and only then.
fn same_places(found: &BTreeMap<String, BTreeSet<usize>>, owes: &BTreeMap<String, BTreeSet<i64>>, at: &mut HashMap<i64, usize>) -> Result<(), String> {
    if found.keys().ne(owes.keys()) {
        return Err(format!("it refers to {:?}, not {:?}", found.keys().collect::<Vec<_>>(), owes.keys().collect::<Vec<_>>()));
    }
    for (id, places) in found {
        let sers = &owes[id];
        if places.len() != sers.len() {
            return Err(format!("it has {} different objects {}, not {}", places.len(), id, sers.len()));
        }
        let mut left: BTreeSet<usize> = places.clone();
        let mut new = vec![];
        for n in sers {
            match at.get(n) {
                Some(p) => if !left.remove(p) { return Err(format!("its {} is not the one expected", id)); },
                None => new.push(*n),
            }
        }
        for p in &left {
            if at.values().any(|q| q == p) {
                return Err(format!("its {} is an object already there, not a new one", id));
            }
        }
        if new.len() == 1 {
            at.insert(new[0], *left.iter().next().unwrap());
        }
    }
    Ok(())
}
