//! C24: samples recorded, switched on and off and collected by several threads; and the traces the core saves.
use super::edit::*;
use super::view::open_all;
use crate::driver::Prop;
use crate::fe::*;
use crate::plug::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use xi_trace::{chrome_trace_dump, Config, Sample, SampleEventType, SampleGuard, Trace};

/// One sample that was, or may have been, recorded between the steps `a` and `b`.
#[derive(Clone, Debug)]
struct Ev {
    name: String,
    ph: SampleEventType,
    a: u64,
    b: u64,
    /// when it was taken, in microseconds
    ts: (u64, u64),
    dur: Option<u64>,
    tid: u64,
    thread: String,
    payload: Option<String>,
    cats: String,
    /// only recorded if its beginning was
    tail: Option<(u64, u64)>,
}
/// On with a limit, or off, from a step between `a` and `b`.
#[derive(Clone, Debug)]
struct Ctl {
    a: u64,
    b: u64,
    limit: Option<usize>,
}
struct Got {
    what: String,
    a: u64,
    b: u64,
    sorted: bool,
    from_file: bool,
    samples: Vec<Sample>,
}
#[derive(Default)]
struct Log {
    step: u64,
    evs: Vec<Ev>,
    ctl: Vec<Ctl>,
    got: Vec<Got>,
    lens: Vec<(u64, u64, usize)>,
    ended: u64,
}
fn us() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        (t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64) / 1000
    }
}
fn tid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}
/// The global functions, or those of a tracer of one's own.
#[derive(Clone, Copy)]
enum T {
    Global,
    Own(&'static Trace),
}
impl T {
    fn instant(&self, n: String, c: &'static [&'static str; 2], p: Option<String>) {
        match (self, p) {
            (T::Global, None) => xi_trace::trace(n, c),
            (T::Global, Some(p)) => xi_trace::trace_payload(n, c, p),
            (T::Own(t), None) => t.instant(n, c),
            (T::Own(t), Some(p)) => t.instant_payload(n, c, p),
        }
    }
    fn block(&self, n: String, c: &'static [&'static str; 2], p: Option<String>) -> SampleGuard<'static> {
        match (self, p) {
            (T::Global, None) => xi_trace::trace_block(n, c),
            (T::Global, Some(p)) => xi_trace::trace_block_payload(n, c, p),
            (T::Own(t), None) => t.block(n, c),
            (T::Own(t), Some(p)) => t.block_payload(n, c, p),
        }
    }
    fn closure(&self, n: String, c: &'static [&'static str; 2], p: Option<String>, f: impl FnOnce() -> (u64, u64, u64)) -> (u64, u64, u64) {
        match (self, p) {
            (T::Global, None) => xi_trace::trace_closure(n, c, f),
            (T::Global, Some(p)) => xi_trace::trace_closure_payload(n, c, f, p),
            (T::Own(t), None) => t.closure(n, c, f),
            (T::Own(t), Some(p)) => t.closure_payload(n, c, f, p),
        }
    }
    fn set(&self, limit: Option<usize>) {
        match (self, limit) {
            (T::Global, None) => xi_trace::disable_tracing(),
            (T::Own(t), None) => t.disable(),
            (T::Global, Some(l)) => xi_trace::enable_tracing_with_config(Config::with_limit_count(l)),
            (T::Own(t), Some(l)) => t.enable_config(Config::with_limit_count(l)),
        }
    }
    fn collect(&self, sorted: bool) -> Vec<Sample> {
        match (self, sorted) {
            (T::Global, false) => xi_trace::samples_cloned_unsorted(),
            (T::Global, true) => xi_trace::samples_cloned_sorted(),
            (T::Own(t), false) => t.samples_cloned_unsorted(),
            (T::Own(t), true) => t.samples_cloned_sorted(),
        }
    }
    fn len(&self) -> usize {
        match self {
            T::Global => xi_trace::samples_len(),
            T::Own(t) => t.get_samples_count(),
        }
    }
    fn save(&self, p: &str, sorted: bool) -> Result<(), String> {
        match self {
            T::Global => xi_trace::save(p, sorted),
            T::Own(t) => t.save(p, sorted),
        }
        .map_err(|e| format!("{:?}", e))
    }
}
const CATS: [&[&str; 2]; 3] = [&["rpc", "core"], &["é", "x y"], &["a", "b"]];

fn gen(r: &mut Rng, th: bool) -> Value {
    if r.below(4) == 0 {
        return gen_core(r, th);
    }
    let threads = r.range(1, 4);
    let n = r.range(4, if th { 120 } else { 50 });
    let small = r.below(2) == 0;
    let ctl = *r.pick(&[30u64, 12, 60]);
    let ops: Vec<Value> = (0..n)
        .map(|i| {
            let limit = if small { r.below(9) } else { *r.pick(&[40u64, 300, 3000]) };
            let mut o = match r.below(24) {
                _ if i == 0 => json!({"k": "on", "limit": limit}),
                _ if r.below(ctl) == 0 => json!({"k": "off"}),
                _ if r.below(ctl) == 0 => json!({"k": "on", "limit": limit}),
                0..=8 => json!({"k": "instant"}),
                9..=12 => json!({"k": "open"}),
                13..=16 => json!({"k": "close"}),
                17 | 18 => json!({"k": "closure", "us": r.below(30)}),
                19 => json!({"k": "len"}),
                20 => json!({"k": "pause", "us": r.below(2000)}),
                21 => json!({"k": "save", "sorted": r.below(2) == 0}),
                _ => json!({"k": "collect", "sorted": r.below(2) == 0}),
            };
            o["t"] = json!(r.below(threads));
            o["p"] = json!(r.below(2) == 0);
            o["c"] = json!(r.below(3));
            o
        })
        .collect();
    json!({"threads": threads, "own": r.below(2) == 0, "ops": ops})
}
fn run(sc: &Value) {
    if sc["texts"].is_array() {
        return run_core(sc);
    }
    vos::h_mkdirs("/w");
    let log = Arc::new(Shared1::new(Log::default()));
    let t = if sc["own"] == true { T::Own(Box::leak(Box::new(Trace::disabled()))) } else { T::Global };
    let n = sc["threads"].as_u64().unwrap();
    for x in 0..n {
        let ops: Vec<(usize, Value)> = sc["ops"].as_array().unwrap().iter().cloned().enumerate().filter(|o| if matches!(o.1["k"].as_str(), Some("on") | Some("off")) { x == 0 } else { o.1["t"].as_u64() == Some(x) }).collect();
        let log = log.clone();
        let body = move || {
            let step = || {
                log.with(|l| {
                    l.step += 1;
                    l.step
                })
            };
            let me = format!("tracer{}", x);
            let id = tid();
            let mut open: Vec<(SampleGuard<'static>, Ev)> = Vec::new();
            let shut = |open: &mut Vec<(SampleGuard<'static>, Ev)>| {
                if let Some((g, mut e)) = open.pop() {
                    e.tail = Some((e.a, e.b));
                    e.ph = SampleEventType::DurationEnd;
                    e.a = step();
                    let t0 = us();
                    drop(g);
                    e.ts = (t0, us());
                    e.b = step();
                    log.with(|l| l.evs.push(e));
                }
            };
            for (i, op) in ops {
                let name = format!("s{}", i);
                let payload = if op["p"] == true { Some(format!("payload {} \"é\"", i)) } else { None };
                let c = CATS[op["c"].as_u64().unwrap_or(0) as usize];
                let mut e = Ev { name: name.clone(), ph: SampleEventType::Instant, a: step(), b: 0, ts: (us(), 0), dur: None, tid: id, thread: me.clone(), payload: payload.clone(), cats: c.join(","), tail: None };
                match op["k"].as_str().unwrap() {
                    "instant" => {
                        t.instant(name, c, payload);
                        e.ts.1 = us();
                        e.b = step();
                        log.with(|l| l.evs.push(e));
                    }
                    "open" => {
                        e.ph = SampleEventType::DurationBegin;
                        let g = t.block(name, c, payload);
                        e.ts.1 = us();
                        e.b = step();
                        log.with(|l| l.evs.push(e.clone()));
                        open.push((g, e));
                    }
                    "close" => shut(&mut open),
                    "closure" => {
                        let t0 = us();
                        let (t1, t2, s) = t.closure(name, c, payload, || {
                            let t1 = us();
                            sleep(op["us"].as_u64().unwrap() * 1000);
                            (t1, us(), step())
                        });
                        let t3 = us();
                        e.ph = SampleEventType::CompleteDuration;
                        e.a = s;
                        e.ts = (t0, t1);
                        // at least the inner and at most the outer time
                        if t1 == t0 && t3 == t2 {
                            e.dur = Some(t2 - t1);
                        }
                        e.b = step();
                        log.with(|l| l.evs.push(e));
                    }
                    "on" | "off" => {
                        let limit = op["limit"].as_u64().map(|l| l as usize);
                        slog!("tracing {:?}", limit);
                        t.set(limit);
                        let (a, b) = (e.a, step());
                        log.with(|l| l.ctl.push(Ctl { a, b, limit }));
                        note(if limit.is_some() { "enabled" } else { "disabled" }, 1);
                    }
                    "len" => {
                        let n = t.len();
                        let b = step();
                        log.with(|l| l.lens.push((e.a, b, n)));
                    }
                    "pause" => sleep(op["us"].as_u64().unwrap() * 1000),
                    k => {
                        let sorted = op["sorted"] == true;
                        let mut what = format!("op {} ({})", i, k);
                        let samples = if k == "save" {
                            let p = format!("/w/trace{}", i);
                            let r = t.save(&p, sorted);
                            slog!("save {:?}", r);
                            if r.is_err() {
                                continue;
                            }
                            what += " saved";
                            match chrome_trace_dump::deserialize(&vos::h_read(&p).unwrap_or_default()[..]) {
                                Ok(s) => s,
                                Err(e) => violation!("trace-file", "{}: {} cannot be read again: {:?}", what, p, e),
                            }
                        } else {
                            t.collect(sorted)
                        };
                        note("collections", 1);
                        note("nontrivial", samples.len() as u64);
                        slog!("{} {} samples", what, samples.len());
                        let (a, b) = (e.a, step());
                        log.with(|l| l.got.push(Got { what, a, b, sorted, from_file: k == "save", samples }));
                    }
                }
            }
            while !open.is_empty() {
                shut(&mut open);
            }
            log.with(|l| l.ended += 1);
        };
        std::thread::Builder::new().name(format!("tracer{}", x)).spawn(body).unwrap();
    }
    if !eventually_in(60 * SEC, MS, || log.with(|l| l.ended) == n) {
        violation!("blocked", "{} of {} threads are still tracing after a minute", n - log.with(|l| l.ended), n);
    }
    for sorted in [false, true] {
        let step = || {
            log.with(|l| {
                l.step += 1;
                l.step
            })
        };
        let a = step();
        let samples = t.collect(sorted);
        let b = step();
        log.with(|l| l.got.push(Got { what: "the collection at the end".into(), a, b, sorted, from_file: false, samples }));
    }
    log.with(|l| judge(l));
}
fn judge(l: &Log) {
    let never = vec![Ctl { a: 0, b: 0, limit: None }];
    let ctl: Vec<Ctl> = never.into_iter().chain(l.ctl.iter().cloned()).collect();
    let key = |e: &Ev| format!("{} {:?}", e.name, e.ph);
    // the setting that certainly applies throughout
    let during = |a: u64, b: u64| {
        let k = ctl.iter().rposition(|c| c.b < a)?;
        if ctl.get(k + 1).map_or(false, |c| c.a < b) {
            None
        } else {
            Some(k)
        }
    };
    let evs: HashMap<String, &Ev> = l.evs.iter().map(|e| (key(e), e)).collect();
    let surely = |e: &Ev| during(e.a, e.b).filter(|k| ctl[*k].limit.is_some() && e.tail.map_or(true, |t| during(t.0, t.1).map_or(false, |k| ctl[k].limit.is_some())));
    let surely_not = |e: &Ev| {
        let off = |a, b| during(a, b).map_or(false, |k| ctl[k].limit.is_none());
        off(e.a, e.b) || e.tail.map_or(false, |t| off(t.0, t.1))
    };
    for g in &l.got {
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        let mut names: HashMap<u64, Vec<String>> = HashMap::new();
        for s in g.samples.iter().filter(|s| s.event_type == SampleEventType::Metadata && s.name == "thread_name") {
            names.entry(s.tid).or_default().push(s.args.as_ref().and_then(|a| a.metadata_name.clone()).unwrap_or_default().into_owned());
        }
        for w in g.samples.windows(2) {
            if g.sorted && w[0].timestamp_us > w[1].timestamp_us {
                violation!("not-sorted", "{}: {:?} comes before {:?}", g.what, w[0], w[1]);
            }
        }
        for (i, s) in g.samples.iter().enumerate().filter(|s| s.1.event_type != SampleEventType::Metadata) {
            let k = format!("{} {:?}", s.name, s.event_type);
            let e = match evs.get(&k) {
                Some(e) if e.a < g.b => *e,
                _ => violation!("invented", "{}: nobody had recorded {:?}", g.what, s),
            };
            if let Some(j) = seen.insert(k, i) {
                violation!("twice", "{}: {:?} is there twice, at {} and {}", g.what, s, j, i);
            }
            let payload = s.args.as_ref().and_then(|a| a.payload.as_ref()).map(|p| p.to_string());
            let dur = if e.ph == SampleEventType::CompleteDuration { s.duration_us } else { None };
            let ok = payload == e.payload
                && s.categories.as_ref().map(|c| c.join(",")) == Some(e.cats.clone())
                && s.tid == e.tid
                && s.timestamp_us >= e.ts.0
                && s.timestamp_us <= e.ts.1
                && e.dur.map_or(true, |d| dur.map_or(false, |x| x.max(d) - x.min(d) <= 1))
                && (e.ph == SampleEventType::CompleteDuration || s.duration_us.is_none())
                && (g.from_file || s.thread_name.as_ref().map(|n| n.to_string()) == Some(e.thread.clone()));
            if !ok {
                violation!("torn", "{}: {:?} does not agree with what was recorded: {:?}", g.what, s, e);
            }
            if !names.get(&s.tid).map_or(false, |n| n.contains(&e.thread)) {
                violation!("thread-name", "{}: {:?} is of thread {}, which is named {:?} there: {:?}", g.what, s, e.thread, names.get(&s.tid), g.samples.iter().filter(|s| s.event_type == SampleEventType::Metadata).collect::<Vec<_>>());
            }
            if surely_not(e) {
                violation!("recorded-off", "{}: {:?} was recorded although tracing was off from beginning to end", g.what, s);
            }
            if let Some(c) = ctl.iter().find(|c| c.limit.is_none() && c.a > e.b && c.b < g.a) {
                violation!("survived-off", "{}: {:?} is there although tracing has been switched off since ({:?})", g.what, s, c);
            }
        }
        let state = during(g.a, g.b);
        if let Some(k) = state {
            let max = ctl[k].limit.unwrap_or(0);
            if seen.len() > max {
                violation!("over-limit", "{}: {} samples are kept and the limit is {}", g.what, seen.len(), max);
            }
            if ctl[k].limit.is_some() {
                let d = l.evs.iter().filter(|e| surely(e) == Some(k) && e.b < g.a).count();
                if seen.len() < d.min(max) {
                    violation!("lost", "{}: {} samples were recorded, the limit is {}, and {} are there", g.what, d, max, seen.len());
                }
            }
        }
        for e in &l.evs {
            let k = match surely(e) {
                Some(k) if e.b < g.a => k,
                _ => continue,
            };
            if ctl[k + 1..].iter().any(|c| c.limit.is_none() && c.a < g.b) {
                continue;
            }
            // all that can have competed for the space since tracing was last switched on
            let first = ctl[..=k].iter().rposition(|c| c.limit.is_none()).unwrap_or(0);
            let n = l.evs.iter().filter(|x| x.b > ctl[first].a && x.a < g.b).count();
            let least = ctl[k..].iter().filter(|c| c.a < g.b).filter_map(|c| c.limit).min().unwrap();
            if n <= least && !seen.contains_key(&key(e)) {
                violation!("lost", "{}: {:?} is missing, {} samples were recorded and the limit is {}", g.what, e, n, least);
            }
            // the oldest go first
            if !seen.contains_key(&key(e)) {
                if let Some(o) = l.evs.iter().find(|o| o.b < e.a && surely(o).is_some() && seen.contains_key(&key(o))) {
                    violation!("lost", "{}: {:?} is missing while {:?}, which is older, is there", g.what, e, o);
                }
            }
        }
        sig(seen.keys().fold(seen.len() as u64, |h, k| h.wrapping_mul(31).wrapping_add(crate::driver::hash(k.as_bytes()))));
    }
    for (a, b, n) in &l.lens {
        if let Some(k) = during(*a, *b) {
            if *n > ctl[k].limit.unwrap_or(0) {
                violation!("over-limit", "{} samples are reported and the limit is {:?}", n, ctl[k].limit);
            }
        }
    }
}
// ---------------------------------------------------------------- the core
fn gen_sample(name: &str, r: &mut Rng) -> Value {
    let mut s = json!({"name": name, "cat": "x,y", "ts": r.below(1 << 40), "ph": *r.pick(&["i", "B", "E", "X"]), "pid": r.below(9), "tid": r.below(9)});
    if s["ph"] == "X" {
        s["dur"] = json!(r.below(1000));
    }
    if r.below(3) == 0 {
        s["args"] = json!({"xi_payload": "p é"});
    }
    s
}
fn gen_core(r: &mut Rng, th: bool) -> Value {
    let np = r.below(3);
    let plugs: Vec<Value> = (0..np)
        .map(|i| {
            let s: Vec<Value> = (0..r.below(6)).map(|x| gen_sample(&format!("plug{} {}", i, x), r)).collect();
            json!({"samples": s, "ms": *r.pick(&[0u64, 0, 3, 40]), "as": *r.pick(&["ok", "ok", "ok", "error", "junk", "ph"])})
        })
        .collect();
    let ops: Vec<Value> = (0..r.range(3, if th { 40 } else { 18 }))
        .map(|i| match r.below(9) {
            0 => json!({"k": "on"}),
            1 => json!({"k": "off"}),
            2 | 3 => {
                let s: Vec<Value> = (0..r.below(6)).map(|x| gen_sample(&format!("fe{} {}", i, x), r)).collect();
                json!({"k": "save", "s": s, "odd": r.below(8) == 0})
            }
            4 => json!({"k": "pause", "ms": r.below(30)}),
            5 if np > 0 => json!({"k": *r.pick(&["stop", "start", "kill"]), "n": r.below(np)}),
            _ => {
                let (m, p) = gen_edit(r);
                json!({"m": m, "p": p})
            }
        })
        .collect();
    json!({"texts": [gen_text(r, 10)], "conf": {}, "plugs": plugs, "ops": ops})
}
fn run_core(sc: &Value) {
    let plugs = Plugs::new();
    for (i, p) in sc["plugs"].as_array().unwrap().iter().enumerate() {
        let mut s = Spec::new(&format!("tr{}", i));
        let p = p.clone();
        s.hook = Some(Arc::new(move |me: &Plug, m: &str, msg: &Value| {
            if m != "collect_trace" {
                return false;
            }
            let id = msg["id"].clone();
            let a = match p["as"].as_str().unwrap() {
                "ok" => json!({"id": id, "result": p["samples"]}),
                "ph" => json!({"id": id, "result": [{"name": "q", "cat": "", "ts": 1, "ph": "?", "pid": 1, "tid": 1}]}),
                "junk" => json!({"id": id, "result": {"a": 1}}),
                _ => json!({"id": id, "error": {"code": 1, "message": "no"}}),
            };
            let (ms, me) = (p["ms"].as_u64().unwrap(), me.clone());
            spawn(me.pid, "late-samples", move || {
                sleep(ms * MS);
                me.raw(a.to_string());
            });
            true
        }));
        plugs.install("/cfg", s);
    }
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    fe.st.with(|s| s.plugins_around = true);
    let v = open_all(&fe, sc).remove(0);
    fe.settle();
    // since when tracing is on, in steps of the test
    let mut on = false;
    let mut changing = vec![false; sc["plugs"].as_array().unwrap().len()];
    let mut saves: Vec<(String, Vec<Value>, Vec<bool>, bool)> = Vec::new();
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {} {}", i, op);
        match op["k"].as_str() {
            Some("on") | Some("off") => {
                on = op["k"] == "on";
                fe.notify("tracing_config", json!({ "enabled": on }));
            }
            Some("save") => {
                let p = format!("/w/trace{}", i);
                let mut s = op["s"].clone();
                if op["odd"] == true {
                    s = json!([{"name": "q", "cat": "", "ts": 1, "ph": "?", "pid": 1, "tid": 1}]);
                }
                fe.notify("save_trace", json!({"destination": p, "frontend_samples": s}));
                note("saves", 1);
                saves.push((p, if op["odd"] == true { vec![] } else { op["s"].as_array().unwrap().clone() }, (0..changing.len()).map(|n| changing[n] || plugs.get(&format!("tr{}", n)).map_or(true, |p| p.view(&v).is_none())).collect(), on));
            }
            Some("pause") => sleep(op["ms"].as_u64().unwrap() * MS),
            Some(k @ "stop") | Some(k @ "start") => {
                let n = op["n"].as_u64().unwrap() as usize;
                changing[n] = true;
                for s in &mut saves {
                    s.2[n] = true;
                }
                fe.notify("plugin", json!({"command": k, "view_id": v, "plugin_name": format!("tr{}", n)}));
            }
            Some("kill") => {
                let n = op["n"].as_u64().unwrap() as usize;
                changing[n] = true;
                for s in &mut saves {
                    s.2[n] = true;
                }
                if let Some(p) = plugs.get(&format!("tr{}", n)) {
                    p.kill();
                }
            }
            _ if op["m"] == "copy" || op["m"] == "cut" => {
                fe.edit_request(&v, op["m"].as_str().unwrap(), op["p"].clone());
            }
            _ => fe.edit(&v, op["m"].as_str().unwrap(), op["p"].clone()),
        }
        note("nontrivial", 1);
    }
    fe.settle();
    for (p, s, changing, on) in &saves {
        if !eventually_in(60 * SEC, 10 * MS, || vos::h_read(p).map_or(false, |b| serde_json::from_slice::<Value>(&b).is_ok())) {
            violation!("not-saved", "the trace {} has not been written within a minute: {:?}", p, vos::h_read(p).map(|b| String::from_utf8_lossy(&b).into_owned()));
        }
        let got: Value = match serde_json::from_slice(&vos::h_read(p).unwrap()) {
            Ok(g) => g,
            Err(e) => violation!("trace-file", "the trace {} is not valid: {}", p, e),
        };
        let got = got.as_array().cloned().unwrap_or_default();
        let count = |x: &Value| got.iter().filter(|g| g["name"] == x["name"]).collect::<Vec<_>>();
        let same = |x: &Value, who: &str, always: bool| {
            let g = count(x);
            if g.len() > 1 || (g.is_empty() && always) {
                violation!("core-trace", "the sample {} of {} is {} times in {}", x, who, g.len(), p);
            }
            for k in ["name", "cat", "ts", "ph", "pid", "tid", "dur"] {
                if g.iter().any(|g| g[k] != x[k]) {
                    violation!("torn", "the sample {} of {} is {:?} in {}", x, who, g, p);
                }
            }
        };
        s.iter().for_each(|x| same(x, "the front-end", true));
        for (i, pl) in sc["plugs"].as_array().unwrap().iter().enumerate() {
            for x in pl["samples"].as_array().unwrap() {
                if pl["as"] == "ok" {
                    same(x, &format!("plugin tr{}", i), !changing[i]);
                }
            }
        }
        let own = got.iter().filter(|g| g["name"].as_str().map_or(false, |n| !n.starts_with("fe") && !n.starts_with("plug"))).count();
        if !on && own > 0 {
            violation!("recorded-off", "{} samples of the core are in {} although tracing was off", own, p);
        }
        if *on && own == 0 {
            violation!("lost", "no samples of the core are in {} although tracing was on", p);
        }
        if got.windows(2).any(|w| w[0]["ts"].as_u64() > w[1]["ts"].as_u64()) {
            violation!("not-sorted", "the samples of {} are not in order", p);
        }
        sig(got.len() as u64);
    }
    fe.check_alive();
}
pub const C24: Prop = Prop {
    id: "C24",
    gen,
    run,
    rule: "a run counts when a collection contained a sample, or a command was given to the core",
    real: &["xi-trace (recording, guards, limits, collection, the Chrome trace format)", "in a quarter of the runs: xi-core-lib (whole core, saving of traces), xi-rpc, xi-rope", "std threads, locks and atomics"],
    stub: &["kernel: scheduler, futex, clock, file system (virtual); pipes, processes, inotify in the runs with a core", "front-end and plugins (simulated)"],
    assumptions: &["tracing is switched on and off by one thread at a time"],
};
