//! World B: one real RpcLoop, client threads that use its peer, and a scripted remote side.
use crate::driver::Prop;
use crate::rt::*;
use crate::vos::{self, VFile};
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufReader, Read, Write};
use std::sync::Arc;
use std::time::{Duration, Instant};
use simmono::{Loop, Note, Req, Served};
use xi_rpc::{Error, Peer, ReadError, RemoteError, RpcCtx};

const REAL: &[&str] = &["xi-rpc (RpcLoop, RawPeer, MessageReader)", "xi-trace", "std threads, locks, condvars, channels"];
const STUB: &[&str] = &["kernel: scheduler, futex, clock, pipes (virtual)", "remote side of the connection (scripted)"];
const ASSUME: &[&str] = &[
    "sequentially consistent memory: preemption happens at basic-block granularity in the xi crates and at system calls elsewhere",
    "a pipe delivers bytes in order; reads and writes may be short or interrupted",
];

/// Reads newline-terminated messages from a virtual pipe.
pub struct Lines {
    pub f: VFile,
    buf: Vec<u8>,
}
impl Lines {
    pub fn new(f: VFile) -> Lines {
        Lines { f, buf: Vec::new() }
    }
    pub fn next(&mut self) -> Option<String> {
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.buf.drain(..=i).collect();
                return Some(String::from_utf8_lossy(&l[..l.len() - 1]).into_owned());
            }
            let mut b = [0u8; 4096];
            match self.f.read(&mut b) {
                Ok(0) => return None,
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return None,
            }
        }
    }
    pub fn rest(&self) -> usize {
        self.buf.len()
    }
}
/// Writes a whole line; false if the other side is gone.
pub fn put(f: &mut VFile, v: &str) -> bool {
    let mut s = v.as_bytes().to_vec();
    s.push(b'\n');
    f.write_all(&s).is_ok()
}

fn err_name(r: &Result<Value, Error>) -> String {
    match r {
        Ok(v) => format!("ok:{}", v),
        Err(Error::RemoteError(RemoteError::Custom { code, .. })) => format!("remote:{}", code),
        Err(Error::RemoteError(RemoteError::InvalidRequest(_))) => "remote:-32600".into(),
        Err(Error::RemoteError(e)) => format!("remote?{:?}", e),
        Err(Error::Io(_)) => "io".into(),
        Err(Error::PeerDisconnect) => "disconnect".into(),
        Err(Error::InvalidResponse) => "invalid".into(),
    }
}

fn loop_end(r: &Result<(), ReadError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(ReadError::Io(_)) => "io",
        Err(ReadError::Json(_)) => "json",
        Err(ReadError::NotObject) => "notobject",
        Err(ReadError::UnknownRequest(_)) => "unknown",
        Err(ReadError::Disconnect) => "disconnect",
    }
}

// ================================================================ C01
fn gen_c01(r: &mut Rng, th: bool) -> Value {
    let threads = r.range(1, 4);
    let n = r.range(2, if th { 40 } else { 16 });
    let mut ops = Vec::new();
    for u in 0..n {
        let k = *r.pick(&["sync", "async", "sync", "async", "locked", "chain", "notif", "sleep"]);
        let resp = *r.pick(&["ok", "ok", "ok", "err", "bad_both", "bad_none", "dup", "never", "bad_err", "stray"]);
        ops.push(json!({"t": r.below(threads), "k": k, "u": u, "resp": resp,
            "delay": *r.pick(&[0u64, 0, 0, 100, 3_000, 20_000]), "sleep": *r.pick(&[0u64, 0, 500, 8_000])}));
    }
    json!({"threads": threads, "ops": ops,
        "end": *r.pick(&["eof", "eof_w", "kill", "kill_r", "badjson", "badnotif", "midline", "handler_panic"]),
        "end_us": r.range(0, 60_000), "eager": r.below(2), "cap": *r.pick(&[64u64, 300, 65536])})
}
struct C01 {
    done: BTreeMap<u64, Vec<String>>,
    sent: HashMap<u64, String>,
    loop_done: Option<String>,
}
fn run_c01(sc: &Value) {
    let cap = sc["cap"].as_u64().unwrap() as usize;
    let (l_in, mut p_out) = vos::channel(1, 0, cap);
    let (p_in, l_out) = vos::channel(0, 1, cap);
    let st = Arc::new(Shared1::new(C01 { done: BTreeMap::new(), sent: HashMap::new(), loop_done: None }));
    let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
    let specs: HashMap<u64, Value> = ops.iter().map(|o| (o["u"].as_u64().unwrap(), o.clone())).collect();
    let mut lp = Loop::new(Box::new(l_out));
    let peer = lp.peer();

    struct H;
    impl Served for H {
        fn note(&mut self, _c: &RpcCtx, n: Note) {
            if let Note::Panic {} = n {
                panic!("handler panic requested by the scenario");
            }
        }
        fn req(&mut self, _c: &RpcCtx, _r: Req) -> Result<Value, RemoteError> {
            Ok(json!(1))
        }
    }
    let st2 = st.clone();
    spawn(1, "main", move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lp.run(Box::new(move || Box::new(BufReader::new(l_in)) as simmono::In), &mut H)));
        let s = match &r {
            Ok(r) => loop_end(r).to_string(),
            Err(_) => "panic".into(),
        };
        slog!("mainloop returned {}", s);
        st2.with(|s2| s2.loop_done = Some(s));
    });
    // clients
    let nt = sc["threads"].as_u64().unwrap();
    let big = Arc::new(std::sync::Mutex::new(()));
    for t in 0..nt {
        let big = big.clone();
        let mine: Vec<Value> = ops.iter().filter(|o| o["t"].as_u64() == Some(t)).cloned().collect();
        let peer = peer.clone();
        let st = st.clone();
        spawn(1, &format!("client{}", t), move || {
            for o in mine {
                let u = o["u"].as_u64().unwrap();
                let d = o["sleep"].as_u64().unwrap();
                if d > 0 {
                    std::thread::sleep(Duration::from_micros(d));
                }
                match o["k"].as_str().unwrap() {
                    "sync" => {
                        let r = peer.send_rpc_request("q", &json!({ "u": u }));
                        let e = err_name(&r);
                        slog!("sync {} -> {}", u, e);
                        st.with(|s| s.done.entry(u).or_default().push(e));
                    }
                    k @ "async" | k @ "chain" | k @ "locked" => {
                        // as the core does: the sender holds a lock which the callback also takes
                        let held = if k == "locked" { Some(big.lock().unwrap()) } else { None };
                        let cb_lock = if k == "locked" { Some(big.clone()) } else { None };
                        let st = st.clone();
                        let p2 = peer.clone();
                        let chain = k == "chain";
                        peer.send_rpc_request_async(
                            "q",
                            &json!({ "u": u }),
                            Box::new(move |r: Result<Value, Error>| {
                                let _held = cb_lock.as_ref().map(|l| l.lock().unwrap());
                                let e = err_name(&r);
                                slog!("async {} -> {}", u, e);
                                st.with(|s| s.done.entry(u).or_default().push(e));
                                if chain {
                                    let st = st.clone();
                                    p2.send_rpc_request_async(
                                        "q",
                                        &json!({ "u": u + 1000 }),
                                        Box::new(move |r: Result<Value, Error>| {
                                            let e = err_name(&r);
                                            slog!("chained {} -> {}", u, e);
                                            st.with(|s| s.done.entry(u + 1000).or_default().push(e));
                                        }),
                                    );
                                }
                            }),
                        );
                        drop(held);
                    }
                    "notif" => peer.send_rpc_notification("n", &json!({ "u": u })),
                    _ => {}
                }
            }
        });
    }
    // the remote side: a reader that queues answers, a writer that sends them when due
    let q: Arc<Mailbox<(u64, u64, u64)>> = Arc::new(Mailbox::new());
    let q2 = q.clone();
    let specs2 = specs.clone();
    let p_in_fd = p_in.fd;
    spawn(0, "remote-reader", move || {
        let mut l = Lines::new(p_in);
        while let Some(s) = l.next() {
            let v: Value = match serde_json::from_str(&s) {
                Ok(v) => v,
                Err(_) => violation!("torn-message", "remote received a line that is not JSON: {:?}", s),
            };
            if let (Some(id), Some(u)) = (v["id"].as_u64(), v["params"]["u"].as_u64()) {
                let d = specs2.get(&(u % 1000)).map(|o| o["delay"].as_u64().unwrap()).unwrap_or(0);
                q2.push((now() + d * 1000, id, u));
            }
        }
    });
    let end = sc["end"].as_str().unwrap().to_string();
    let end_at = now() + sc["end_us"].as_u64().unwrap() * 1000;
    let mut due: Vec<(u64, u64, u64)> = Vec::new();
    let mut closed = false;
    let stray = sc["eager"].as_u64() == Some(1);
    while now() < end_at && !closed {
        let next = due.iter().map(|d| d.0).min().unwrap_or(u64::MAX).min(end_at);
        if let Some(m) = q.pop_until(next) {
            due.push(m);
        }
        due.sort();
        while !due.is_empty() && due[0].0 <= now() && !closed {
            let (_, id, u) = due.remove(0);
            let kind = specs.get(&(u % 1000)).map(|o| o["resp"].as_str().unwrap().to_string()).unwrap_or("ok".into());
            let (line, exp) = match kind.as_str() {
                "ok" | "dup" | "stray" => (json!({"id": id, "result": {"u": u}}).to_string(), format!("ok:{}", json!({ "u": u }))),
                "err" => (json!({"id": id, "error": {"code": 4000 + u, "message": "m"}}).to_string(), format!("remote:{}", 4000 + u)),
                "bad_both" => (json!({"id": id, "result": 1, "error": {"code": 1, "message": "m"}}).to_string(), "invalid".into()),
                "bad_none" => (json!({ "id": id }).to_string(), "invalid".into()),
                "bad_err" => (json!({"id": id, "error": "not an error object"}).to_string(), "malformed".into()),
                _ => continue,
            };
            if kind == "stray" && stray {
                // an answer to a request nobody made
                if !put(&mut p_out, &json!({"id": 900_000 + u, "result": 0}).to_string()) {
                    closed = true;
                }
            }
            if put(&mut p_out, &line) {
                st.with(|s| {
                    s.sent.insert(u, exp);
                });
            } else {
                closed = true;
            }
            if kind == "dup" && !closed && !put(&mut p_out, &json!({"id": id, "result": "second answer"}).to_string()) {
                closed = true;
            }
        }
    }
    slog!("END {}", end);
    note(&format!("end_{}", end), 1);
    let mut expect: &[&str] = &["ok"];
    let mut keep = None;
    match end.as_str() {
        "eof_w" => drop(p_out),
        "badjson" => {
            put(&mut p_out, "{\"method\": ");
            expect = &["json"];
            keep = Some(p_out);
        }
        "badnotif" => {
            put(&mut p_out, "{\"method\": \"no_such_thing\", \"params\": {}}");
            expect = &["unknown"];
            keep = Some(p_out);
        }
        "handler_panic" => {
            put(&mut p_out, "{\"method\": \"panic\", \"params\": {}}");
            // the loop cannot finish before its reader sees the end of input
            drop(p_out);
            expect = &["panic"];
        }
        "midline" => {
            let _ = p_out.write_all(b"{\"id\": 1, \"res");
            drop(p_out);
            expect = &["json"];
        }
        "kill_r" => {
            // the remote stops reading, then goes away
            let _ = vos::close(p_in_fd);
            sleep(3 * MS);
            drop(p_out);
        }
        "kill" => {
            let _ = vos::close(p_in_fd);
            drop(p_out);
        }
        _ => {
            drop(p_out);
            sleep(2 * MS);
            let _ = vos::close(p_in_fd);
        }
    }
    let local_exit = matches!(end.as_str(), "badjson" | "badnotif" | "handler_panic");
    if local_exit && end != "handler_panic" {
        // the read thread notices the exit flag only once its input moves
        sleep(200 * MS);
        drop(keep);
    }
    sim().faults_on = false;
    let want: Vec<u64> = ops.iter().filter(|o| matches!(o["k"].as_str(), Some("sync") | Some("async") | Some("chain") | Some("locked"))).map(|o| o["u"].as_u64().unwrap()).collect();
    let chained: Vec<u64> = ops.iter().filter(|o| o["k"] == "chain").map(|o| o["u"].as_u64().unwrap() + 1000).collect();
    let all: Vec<u64> = want.iter().chain(chained.iter()).copied().collect();
    let deadline = now() + 30 * SEC;
    let fin = wait_for(deadline, 10 * MS, || st.with(|s| s.loop_done.is_some() && all.iter().all(|u| s.done.contains_key(u))));
    if !fin {
        st.with(|s| {
            if s.loop_done.is_none() {
                violation!("loop-stuck", "the loop did not return within 30 s of the end of its input ({})", end);
            }
            for u in &all {
                if !s.done.contains_key(u) {
                    violation!("never-completed", "request {} was never completed although the connection ended ({})", u, end);
                }
            }
        });
    }
    sleep(50 * MS);
    st.with(|s| {
        let ld = s.loop_done.clone().unwrap();
        // a pipe error or a torn final line may also end the loop
        if !expect.contains(&ld.as_str()) {
            violation!("loop-result", "loop returned {} after {}", ld, end);
        }
        let mut ok = 0;
        for u in &all {
            let d = &s.done[u];
            if d.len() != 1 {
                violation!("completed-twice", "request {} completed {} times: {:?}", u, d.len(), d);
            }
            match s.sent.get(u) {
                Some(e) if *e == d[0] => ok += 1,
                Some(e) if e == "malformed" && (d[0] == "invalid" || d[0].starts_with("remote")) => ok += 1,
                Some(e) => {
                    if !(local_exit && d[0] == "disconnect") {
                        violation!("wrong-result", "request {} was answered {} but completed with {}", u, e, d[0]);
                    }
                }
                None => {
                    if d[0] != "disconnect" && d[0] != "io" {
                        violation!("wrong-result", "request {} was never answered but completed with {}", u, d[0]);
                    }
                }
            }
        }
        note("requests", all.len() as u64);
        note("answered", ok);
        if all.len() > 1 && ok > 0 {
            note("nontrivial", 1);
        }
    });
}
pub const C01: Prop = Prop {
    id: "C01",
    gen: gen_c01,
    run: run_c01,
    rule: "a seed makes 1-4 client threads issuing blocking, callback and chained requests against a scripted remote that answers, errs, delays, reorders, duplicates, malforms or withholds replies and then ends the connection in one of 8 ways; non-trivial: at least two requests and one answered",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ================================================================ C02
fn gen_c02(r: &mut Rng, th: bool) -> Value {
    let n = r.range(2, if th { 60 } else { 24 });
    let mut ops = Vec::new();
    for n in 0..n {
        let id: u64 = match r.below(6) {
            0 => u64::MAX - n,
            1 => (1 << 53) + n,
            2 => 7, // ids may repeat
            _ => n,
        };
        let mut o = match r.below(12) {
            0..=2 => json!({"k": "poke"}),
            3..=5 => json!({"k": "echo", "pad": *r.pick(&[0u64, 0, 10, 5_000])}),
            6 => json!({"k": "fail", "code": r.range(1, 5000) as i64 - 2500}),
            7 => json!({"k": "nested"}),
            8 => json!({"k": "bad_req", "w": r.below(6)}),
            9 => json!({"k": "bad_params"}),
            10 => json!({"k": "weird_resp", "w": r.below(5)}),
            _ => json!({"k": "pause", "us": *r.pick(&[100u64, 6_000, 30_000])}),
        };
        o["n"] = json!(n);
        o["id"] = json!(id);
        ops.push(o);
    }
    json!({"ops": ops, "end": *r.pick(&["eof", "eof", "badjson", "badnotif", "notobj", "midline"]), "handler_us": *r.pick(&[0u64, 0, 300, 7_000]),
        "cap": *r.pick(&[50u64, 700, 65536])})
}
struct H2 {
    st: Arc<Shared1<C02>>,
    us: u64,
}
struct C02 {
    seen: Vec<String>,
    inside: bool,
    nested: BTreeMap<u64, String>,
    end: Option<String>,
    total: usize,
}
impl H2 {
    fn enter(&self, ctx: &RpcCtx, s: String) {
        slog!("handle {}", s);
        self.st.with(|st| {
            if st.inside {
                violation!("concurrent-handler", "{} delivered while another call is being handled", s);
            }
            st.inside = true;
            st.seen.push(s);
        });
        if self.us > 0 {
            std::thread::sleep(Duration::from_micros(self.us));
        }
        let last = self.st.with(|st| st.seen.len() >= st.total);
        if last && ctx.get_peer().request_is_pending() {
            // only the end marker may be queued behind the last message
            note("pending_at_last", 1);
        }
    }
    fn leave(&self) {
        self.st.with(|st| st.inside = false);
    }
}
impl Served for H2 {
    fn note(&mut self, c: &RpcCtx, n: Note) {
        if let Note::Poke { n } = n {
            self.enter(c, format!("poke {}", n));
            self.leave();
        }
    }
    fn req(&mut self, c: &RpcCtx, r: Req) -> Result<Value, RemoteError> {
        let out = match r {
            Req::Echo { n, pad } => {
                self.enter(c, format!("echo {}", n));
                Ok(json!({"n": n, "pad": pad}))
            }
            Req::Fail { n, code } => {
                self.enter(c, format!("fail {}", n));
                Err(RemoteError::Custom { code, message: format!("e{}", n), data: Some(json!(n)) })
            }
            Req::Nested { n } => {
                self.enter(c, format!("nested {}", n));
                let r = c.get_peer().send_rpc_request("sub", &json!({ "n": n }));
                let e = err_name(&r);
                self.st.with(|s| s.nested.insert(n, e.clone()));
                Ok(json!({"n": n, "sub": e}))
            }
        };
        self.leave();
        out
    }
}
fn run_c02(sc: &Value) {
    let cap = sc["cap"].as_u64().unwrap() as usize;
    let (l_in, mut p_out) = vos::channel(1, 0, cap);
    let (p_in, l_out) = vos::channel(0, 1, cap);
    let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
    let total = ops.iter().filter(|o| matches!(o["k"].as_str(), Some("poke") | Some("echo") | Some("fail") | Some("nested"))).count();
    let st = Arc::new(Shared1::new(C02 { seen: vec![], inside: false, nested: BTreeMap::new(), end: None, total }));
    let st2 = st.clone();
    let us = sc["handler_us"].as_u64().unwrap();
    spawn(1, "main", move || {
        let mut lp = Loop::new(Box::new(l_out));
        let mut h = H2 { st: st2.clone(), us };
        let r = lp.run(Box::new(move || Box::new(BufReader::new(l_in)) as simmono::In), &mut h);
        let s = loop_end(&r).to_string();
        slog!("mainloop returned {}", s);
        st2.with(|s2| s2.end = Some(s));
        // dropping the loop closes its output
    });
    // responses observed by the remote, and sub-requests answered by a separate writer task
    let outq: Arc<Mailbox<Option<String>>> = Arc::new(Mailbox::new());
    let got: Arc<Shared1<(Vec<Value>, bool)>> = Arc::new(Shared1::new((vec![], false)));
    let (oq, gt) = (outq.clone(), got.clone());
    spawn(0, "remote-reader", move || {
        let mut l = Lines::new(p_in);
        while let Some(s) = l.next() {
            let v: Value = match serde_json::from_str(&s) {
                Ok(v) => v,
                Err(_) => violation!("torn-message", "remote received a line that is not JSON: {:?}", s),
            };
            if v["method"] == "sub" {
                oq.push(Some(json!({"id": v["id"], "result": v["params"]["n"]}).to_string()));
            } else {
                gt.with(|g| g.0.push(v));
            }
        }
        gt.with(|g| g.1 = true);
    });
    let (oq, ops2) = (outq.clone(), ops.clone());
    let end = sc["end"].as_str().unwrap().to_string();
    let wdone = Arc::new(Shared1::new(false));
    let wd = wdone.clone();
    spawn(0, "remote-writer", move || {
        while let Some(m) = oq.pop_until(u64::MAX) {
            match m {
                Some(s) => {
                    if s.starts_with("RAW") {
                        let _ = p_out.write_all(s[3..].as_bytes());
                    } else {
                        put(&mut p_out, &s);
                    }
                }
                None => break,
            }
        }
        wd.with(|w| *w = true);
        drop(p_out);
    });
    let mut exp_seen = Vec::new();
    let mut exp_resp: Vec<(u64, String)> = Vec::new();
    for o in &ops2 {
        let n = o["n"].as_u64().unwrap();
        let id = o["id"].as_u64().unwrap();
        let line = match o["k"].as_str().unwrap() {
            "poke" => {
                exp_seen.push(format!("poke {}", n));
                json!({"method": "poke", "params": {"n": n}})
            }
            "echo" => {
                exp_seen.push(format!("echo {}", n));
                let pad = "x".repeat(o["pad"].as_u64().unwrap() as usize);
                exp_resp.push((id, format!("ok:{}", json!({"n": n, "pad": pad}))));
                json!({"id": id, "method": "echo", "params": {"n": n, "pad": pad}})
            }
            "fail" => {
                exp_seen.push(format!("fail {}", n));
                exp_resp.push((id, format!("err:{}:e{}:{}", o["code"], n, n)));
                json!({"id": id, "method": "fail", "params": {"n": n, "code": o["code"]}})
            }
            "nested" => {
                exp_seen.push(format!("nested {}", n));
                exp_resp.push((id, format!("ok:{}", json!({"n": n, "sub": format!("ok:{}", n)}))));
                json!({"id": id, "method": "nested", "params": {"n": n}})
            }
            "bad_req" => {
                exp_resp.push((id, "err:-32600".into()));
                match o["w"].as_u64().unwrap_or(0) {
                    0 => json!({"id": id, "method": "no_such_request", "params": {"n": n}}),
                    1 => json!({"id": id, "method": 5, "params": {"n": n}}),
                    2 => json!({"id": id, "method": null}),
                    3 => json!({"id": id, "method": "echo"}),
                    4 => json!({"id": id, "method": ["echo"], "result": 3}),
                    _ => json!({"id": id, "method": "", "params": [1, "x"]}),
                }
            }
            "bad_params" => {
                exp_resp.push((id, "err:-32600".into()));
                json!({"id": id, "method": "echo", "params": {"n": "not a number"}})
            }
            "weird_resp" => match o["w"].as_u64().unwrap() {
                // responses that nobody asked for or that carry no usable id must be ignored
                0 => json!({"id": 1_000_000 + n, "result": null}),
                1 => json!({"id": "text", "result": 1}),
                2 => json!({"id": -4, "result": 1}),
                3 => json!({"id": null, "error": {"code": 1, "message": "m"}}),
                _ => json!({"id": 1_000_000 + n}),
            },
            _ => {
                sleep(o["us"].as_u64().unwrap() * 1000);
                continue;
            }
        };
        outq.push(Some(line.to_string()));
    }
    // answers to sub-requests must not be cut off: end only when they have been given
    let nn = exp_seen.iter().filter(|s| s.starts_with("nested")).count();
    if !eventually(|| st.with(|s| s.nested.len() >= nn || s.end.is_some())) {
        violation!("stuck", "messages were not processed within 60 s: handled {:?}, expected {:?}", st.with(|s| s.seen.clone()), exp_seen);
    }
    let mut expect = "ok";
    match end.as_str() {
        "badjson" => {
            outq.push(Some("{\"method\": \"poke\", ".into()));
            expect = "json";
        }
        "badnotif" => {
            outq.push(Some("{\"method\": \"no_such_thing\", \"params\": {}}".into()));
            outq.push(Some("{\"method\": \"poke\", \"params\": {\"n\": 999999}}".into()));
            expect = "unknown";
        }
        "notobj" => {
            outq.push(Some("[1,2]".into()));
            outq.push(Some("{\"method\": \"poke\", \"params\": {\"n\": 999999}}".into()));
            expect = "notobject";
        }
        "midline" => {
            outq.push(Some("RAW{\"method\": \"poke\", \"params\"".into()));
            expect = "json";
        }
        _ => {}
    }
    sleep(300 * MS);
    outq.push(None);
    sim().faults_on = false;
    if !wait_for(now() + 30 * SEC, 10 * MS, || st.with(|s| s.end.is_some()) && got.with(|g| g.1)) {
        violation!("loop-stuck", "the loop did not finish within 30 s of the end of its input ({})", end);
    }
    let e = st.with(|s| s.end.clone().unwrap());
    if e != expect {
        violation!("loop-result", "loop returned {} after {}", e, end);
    }
    let seen = st.with(|s| s.seen.clone());
    if seen != exp_seen {
        let i = seen.iter().zip(exp_seen.iter()).position(|(a, b)| a != b).unwrap_or(seen.len().min(exp_seen.len()));
        violation!("order", "handled messages differ at {}: handled {:?}, sent {:?}", i, seen.get(i), exp_seen.get(i));
    }
    let resp: Vec<(u64, String)> = got.with(|g| {
        g.0.iter()
            .map(|v| {
                let id = v["id"].as_u64().unwrap_or(u64::MAX);
                if !v["error"].is_null() {
                    let e = &v["error"];
                    if e["code"] == -32600 {
                        (id, "err:-32600".to_string())
                    } else {
                        (id, format!("err:{}:{}:{}", e["code"], e["message"].as_str().unwrap_or("?"), e["data"]))
                    }
                } else {
                    (id, format!("ok:{}", v["result"]))
                }
            })
            .collect()
    });
    if resp != exp_resp {
        let i = resp.iter().zip(exp_resp.iter()).position(|(a, b)| a != b).unwrap_or(resp.len().min(exp_resp.len()));
        let cut = |x: Option<&(u64, String)>| x.map(|x| (x.0, x.1.chars().take(80).collect::<String>()));
        violation!("responses", "responses differ at {}: sent {:?}, expected {:?} (sent {} expected {})", i, cut(resp.get(i)), cut(exp_resp.get(i)), resp.len(), exp_resp.len());
    }
    for p in &sim().panics {
        violation!("panic", "the loop panicked: {} at {}", p.msg, p.loc);
    }
    note("messages", exp_seen.len() as u64);
    note("responses", exp_resp.len() as u64);
    if exp_seen.len() > 1 && !exp_resp.is_empty() {
        note("nontrivial", 1);
    }
}
pub const C02: Prop = Prop {
    id: "C02",
    gen: gen_c02,
    run: run_c02,
    rule: "a seed makes a sequence of notifications, requests (good, failing, nested, malformed, huge), stray responses and pauses, sent through short/interrupted transfers to one loop, then one of 5 endings; non-trivial: at least two handled messages and one response",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ================================================================ C03
fn gen_c03(r: &mut Rng, th: bool) -> Value {
    let threads = r.range(2, 5);
    let n = r.range(4, if th { 60 } else { 30 });
    let ops: Vec<Value> = (0..n)
        .map(|i| json!({"t": r.below(threads), "k": *r.pick(&["notif", "notif", "async", "sync", "incoming"]), "u": i,
            "pad": *r.pick(&[0u64, 1, 20, 20, 400, 3_000]), "ch": r.below(4)}))
        .collect();
    json!({"threads": threads, "ops": ops, "cap": *r.pick(&[1u64, 17, 256, 4096, 65536]),
        "sched_override": {"fault": {"short_write": *r.pick(&[0u64, 200_000, 700_000]), "eintr": *r.pick(&[0u64, 50_000])}}})
}
fn run_c03(sc: &Value) {
    let vol: u64 = sc["ops"].as_array().unwrap().iter().map(|o| 40 + 3 * o["pad"].as_u64().unwrap()).sum();
    let cap = sc["cap"].as_u64().unwrap().max(vol / 1500) as usize; // bounds the number of system calls
    let (l_in, mut p_out) = vos::channel(1, 0, 65536);
    let (p_in, l_out) = vos::channel(0, 1, cap);
    let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
    let pad = |o: &Value| -> String {
        let c = ["a", "\n", "é☃", "\"\\"][o["ch"].as_u64().unwrap() as usize];
        c.repeat(o["pad"].as_u64().unwrap() as usize)
    };
    struct H;
    impl Served for H {
        fn note(&mut self, _c: &RpcCtx, _n: Note) {}
        fn req(&mut self, c: &RpcCtx, r: Req) -> Result<Value, RemoteError> {
            if let Req::Echo { n, pad } = r {
                // a notification sent before the response has to arrive before it
                c.get_peer().send_rpc_notification("m", &json!({"t": 99, "u": n, "pad": pad}));
                return Ok(json!({"u": n, "pad": pad}));
            }
            Ok(json!(0))
        }
    }
    let mut lp = Loop::new(Box::new(l_out));
    let peer = lp.peer();
    let ended = Arc::new(Shared1::new(0u32));
    let e2 = ended.clone();
    spawn(1, "main", move || {
        let _ = lp.run(Box::new(move || Box::new(BufReader::new(l_in)) as simmono::In), &mut H);
        drop(lp);
        e2.with(|e| *e += 1);
    });
    let nt = sc["threads"].as_u64().unwrap();
    let mut per: BTreeMap<u64, Vec<(u64, String)>> = BTreeMap::new();
    for o in &ops {
        let t = if o["k"] == "incoming" { 99 } else { o["t"].as_u64().unwrap() };
        per.entry(t).or_default().push((o["u"].as_u64().unwrap(), pad(o)));
    }
    let fin = Arc::new(Shared1::new(0u64));
    for t in 0..nt {
        let mine: Vec<(Value, String)> = ops.iter().filter(|o| o["t"].as_u64() == Some(t) && o["k"] != "incoming").map(|o| (o.clone(), pad(o))).collect();
        let peer = peer.clone();
        let fin = fin.clone();
        spawn(1, &format!("sender{}", t), move || {
            for (o, p) in mine {
                let v = json!({"t": t, "u": o["u"], "pad": p});
                match o["k"].as_str().unwrap() {
                    "notif" => peer.send_rpc_notification("m", &v),
                    "async" => peer.send_rpc_request_async("m", &v, Box::new(|_r: Result<Value, Error>| {})),
                    _ => {
                        let _ = peer.send_rpc_request("m", &v);
                    }
                }
            }
            fin.with(|f| *f += 1);
        });
    }
    drop(peer);
    // remote: read everything, answer requests through a separate writer
    let outq: Arc<Mailbox<Option<String>>> = Arc::new(Mailbox::new());
    let got: Arc<Shared1<(Vec<Value>, bool, usize)>> = Arc::new(Shared1::new((vec![], false, 0)));
    let (oq, gt) = (outq.clone(), got.clone());
    spawn(0, "remote-reader", move || {
        let mut l = Lines::new(p_in);
        while let Some(s) = l.next() {
            let v: Value = match serde_json::from_str(&s) {
                Ok(v) => v,
                Err(_) => violation!("torn-message", "remote received a line that is not a whole message: {:?}", s.chars().take(120).collect::<String>()),
            };
            if v["method"] == "m" && !v["id"].is_null() {
                oq.push(Some(json!({"id": v["id"], "result": 1}).to_string()));
            }
            gt.with(|g| g.0.push(v));
        }
        let r = l.rest();
        gt.with(|g| {
            g.1 = true;
            g.2 = r;
        });
    });
    let oq = outq.clone();
    spawn(0, "remote-writer", move || {
        while let Some(Some(s)) = oq.pop_until(u64::MAX) {
            put(&mut p_out, &s);
        }
        drop(p_out);
    });
    for o in ops.iter().filter(|o| o["k"] == "incoming") {
        outq.push(Some(json!({"id": o["u"], "method": "echo", "params": {"n": o["u"], "pad": pad(o)}}).to_string()));
    }
    let total = ops.len() + ops.iter().filter(|o| o["k"] == "incoming").count();
    if !eventually_in(60 * SEC, 20 * MS, || fin.with(|f| *f) == nt && got.with(|g| g.0.len()) >= total) {
        violation!("lost-message", "only {} of {} messages arrived", got.with(|g| g.0.len()), total);
    }
    outq.push(None);
    if !eventually(|| got.with(|g| g.1)) {
        violation!("stuck", "output was not closed after the loop ended");
    }
    got.with(|g| {
        if g.2 != 0 {
            violation!("torn-message", "{} trailing bytes without a newline", g.2);
        }
        if g.0.len() != total {
            violation!("extra-message", "{} messages arrived, {} were sent", g.0.len(), total);
        }
        let mut seen: BTreeMap<u64, Vec<(u64, String)>> = BTreeMap::new();
        let mut ids = std::collections::HashSet::new();
        let mut echoed: Vec<u64> = Vec::new();
        for v in &g.0 {
            if v["method"] == "m" {
                if let Some(id) = v["id"].as_u64() {
                    if !ids.insert(id) {
                        violation!("duplicate-id", "request id {} used twice", id);
                    }
                }
                let t = v["params"]["t"].as_u64().unwrap_or(1000);
                seen.entry(t).or_default().push((v["params"]["u"].as_u64().unwrap_or(0), v["params"]["pad"].as_str().unwrap_or("?").to_string()));
            } else {
                let u = v["result"]["u"].as_u64().unwrap_or(u64::MAX);
                if v["id"].as_u64() != Some(u) {
                    violation!("wrong-message", "response {} carries the result of request {}", v["id"], u);
                }
                if seen.get(&99).and_then(|s| s.last()).map(|x| x.0) != Some(u) {
                    violation!("reordered", "response to {} arrived before the notification sent before it", u);
                }
                echoed.push(u);
            }
        }
        if seen != per {
            for (t, l) in &per {
                let s = seen.get(t).cloned().unwrap_or_default();
                if s != *l {
                    let f = |v: &Vec<(u64, String)>| v.iter().map(|x| x.0).collect::<Vec<_>>();
                    violation!("reordered", "messages of sender {}: sent {:?}, arrived {:?} (contents may differ)", t, f(l), f(&s));
                }
            }
            violation!("reordered", "messages from an unknown sender arrived");
        }
        if echoed.len() != per.get(&99).map(|x| x.len()).unwrap_or(0) {
            violation!("lost-message", "responses missing");
        }
    });
    for p in &sim().panics {
        violation!("panic", "panicked: {} at {}", p.msg, p.loc);
    }
    note("messages", total as u64);
    if total > 3 {
        note("nontrivial", 1);
    }
}
pub const C03: Prop = Prop {
    id: "C03",
    gen: gen_c03,
    run: run_c03,
    rule: "a seed makes 2-5 threads sending notifications and requests of 0-3000 characters (including newlines and multi-byte text) while the loop answers incoming requests, over a pipe of 1-65536 bytes with short and interrupted writes; non-trivial: more than three messages",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ================================================================ C04
fn gen_c04(r: &mut Rng, th: bool) -> Value {
    let n = r.range(3, if th { 50 } else { 20 });
    let ops: Vec<Value> = (0..n)
        .map(|_| match r.below(8) {
            7 => json!({"k": "t_burst", "c": r.range(3, 12), "gap": r.below(3_000), "step": *r.pick(&[1u64, 5, 40])}),
            0 => json!({"k": "msg", "gap": *r.pick(&[0u64, 100, 2_000, 6_000, 20_000])}),
            1 => json!({"k": "m_idle", "c": r.range(1, 4)}),
            2 => json!({"k": "m_timer", "d": [r.below(30_000), r.below(30_000), r.below(8_000)]}),
            3 => json!({"k": "t_idle", "c": r.range(1, 3), "gap": r.below(9_000)}),
            4 => json!({"k": "t_timer", "d": [r.below(40_000)], "gap": r.below(9_000)}),
            5 => json!({"k": "t_timer", "d": [r.below(200), r.below(12_000), r.below(12_000)], "gap": r.below(3_000)}),
            _ => json!({"k": "pause", "us": *r.pick(&[1_000u64, 7_000, 50_000])}),
        })
        .collect();
    json!({"ops": ops, "work": *r.pick(&[0u64, 0, 200, 9_000]), "resched": r.below(3)})
}
#[derive(Default)]
struct C04 {
    next: usize,
    idle_sched: Vec<(usize, u32)>,            // token, scheduling thread
    timers: BTreeMap<usize, (u64, u64)>,      // token -> deadline, registered at
    fired: BTreeMap<usize, u64>,
    fired_order: Vec<usize>,
    pending_at_end: bool,
    overdue_at_end: Option<usize>,
    msgs: Vec<u64>,
    chain: u64,
    inside: bool,
}
struct H4 {
    st: Arc<Shared1<C04>>,
    work: u64,
    resched: u64,
}
impl H4 {
    fn end(&self, ctx: &RpcCtx) {
        let p = ctx.get_peer().request_is_pending();
        self.st.with(|s| {
            let t = now();
            s.pending_at_end = p;
            s.overdue_at_end = s.timers.iter().find(|(k, v)| v.0 + 2_000 < t && !s.fired.contains_key(k)).map(|x| *x.0);
            s.inside = false;
        });
    }
    fn begin(&self) {
        self.st.with(|s| {
            if s.inside {
                violation!("concurrent-handler", "two handler calls overlap");
            }
            s.inside = true
        });
        if self.work > 0 {
            std::thread::sleep(Duration::from_micros(self.work));
        }
    }
}
fn reg_idle(st: &Shared1<C04>, p: &dyn Peer, who: u32) {
    let tok = st.with(|s| {
        s.next += 1;
        let t = s.next;
        s.idle_sched.push((t, who));
        t
    });
    p.schedule_idle(tok);
}
fn reg_timer(st: &Shared1<C04>, p: &dyn Peer, us: u64) {
    let at = Instant::now();
    reg_timer_at(st, p, at + Duration::from_micros(us), now() + us * 1000);
}
/// `dl` is the same moment as `at`, to within 400 ns.
fn reg_timer_at(st: &Shared1<C04>, p: &dyn Peer, at: Instant, dl: u64) {
    let tok = st.with(|s| {
        s.next += 1;
        s.next
    });
    p.schedule_timer(at, tok);
    st.with(|s| {
        let n = now();
        s.timers.insert(tok, (dl.saturating_sub(400), n));
    });
}
impl Served for H4 {
    fn note(&mut self, c: &RpcCtx, n: Note) {
        self.begin();
        match n {
            Note::Poke { n } => self.st.with(|s| s.msgs.push(n)),
            Note::Idle { tokens } => {
                self.st.with(|s| s.msgs.push(tokens[0] as u64));
                for _ in 0..tokens[1] {
                    reg_idle(&self.st, &**c.get_peer(), 0);
                }
            }
            Note::Timers { t } => {
                self.st.with(|s| s.msgs.push(t[0].0));
                for x in &t[1..] {
                    reg_timer(&self.st, &**c.get_peer(), x.0);
                }
            }
            Note::Panic {} => {}
        }
        self.end(c);
    }
    fn req(&mut self, _c: &RpcCtx, _r: Req) -> Result<Value, RemoteError> {
        Ok(json!(0))
    }
    fn idle(&mut self, c: &RpcCtx, token: usize) {
        let t = now();
        self.begin();
        self.st.with(|s| {
            if s.pending_at_end {
                violation!("starved-message", "token {} ran although a message was already waiting", token);
            }
            if s.fired.insert(token, t).is_some() {
                violation!("fired-twice", "token {} ran twice", token);
            }
            let is_timer = s.timers.contains_key(&token);
            if !is_timer && !s.idle_sched.iter().any(|x| x.0 == token) && token <= s.next {
                // a timer registered by another thread that has not noted it yet
            } else if token > s.next {
                violation!("unknown-token", "token {} was never scheduled", token);
            }
            if is_timer {
                let (dl, _) = s.timers[&token];
                if t < dl {
                    violation!("early-timer", "timer {} ran {} ns early", token, dl - t);
                }
                // every timer whose deadline is clearly earlier and that was registered before the
                // previous handler call ended must have fired
                for (k, (d, reg)) in &s.timers {
                    if d + 2_000 < dl && !s.fired.contains_key(k) && *reg + 1 < t && s.overdue_at_end == Some(*k) {
                        violation!("timer-order", "timer {} (deadline {}) ran before timer {} (deadline {})", token, dl, k, d);
                    }
                }
            } else if s.idle_sched.iter().any(|x| x.0 == token) {
                if let Some(o) = s.overdue_at_end {
                    violation!("starved-timer", "idle token {} ran although timer {} was overdue", token, o);
                }
                let who = s.idle_sched.iter().find(|x| x.0 == token).unwrap().1;
                for (k, w) in &s.idle_sched {
                    if *w == who && *k < token && !s.fired.contains_key(k) {
                        violation!("idle-order", "idle token {} ran before {} scheduled earlier", token, k);
                    }
                }
            }
            s.fired_order.push(token);
        });
        let again = self.st.with(|s| {
            if s.chain < 20 {
                s.chain += 1;
                true
            } else {
                false
            }
        });
        if again && self.resched == 1 {
            reg_idle(&self.st, &**c.get_peer(), 0);
        }
        if again && self.resched == 2 {
            reg_timer(&self.st, &**c.get_peer(), 700);
        }
        self.end(c);
    }
}
fn run_c04(sc: &Value) {
    let (l_in, mut p_out) = vos::channel(1, 0, 65536);
    let (_p_in, l_out) = vos::channel(0, 1, 65536);
    let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
    let st = Arc::new(Shared1::new(C04::default()));
    let mut lp = Loop::new(Box::new(l_out));
    let peer = lp.peer();
    let ended = Arc::new(Shared1::new(false));
    let (e2, st2) = (ended.clone(), st.clone());
    let (work, resched) = (sc["work"].as_u64().unwrap(), sc["resched"].as_u64().unwrap());
    spawn(1, "main", move || {
        let _ = lp.run(Box::new(move || Box::new(BufReader::new(l_in)) as simmono::In), &mut H4 { st: st2, work, resched });
        e2.with(|e| *e = true);
    });
    let tops: Vec<Value> = ops.iter().filter(|o| o["k"] == "t_idle" || o["k"] == "t_timer" || o["k"] == "t_burst").cloned().collect();
    let (st3, tdone) = (st.clone(), Arc::new(Shared1::new(false)));
    let td = tdone.clone();
    spawn(1, "scheduler-thread", move || {
        for o in tops {
            std::thread::sleep(Duration::from_micros(o["gap"].as_u64().unwrap()));
            if o["k"] == "t_idle" {
                for _ in 0..o["c"].as_u64().unwrap() {
                    reg_idle(&st3, &*peer, 1);
                }
            } else if o["k"] == "t_burst" {
                // ever earlier deadlines, around the present
                let c = o["c"].as_u64().unwrap();
                let (at, dl) = (Instant::now(), now());
                for i in 0..c {
                    let d = i * o["step"].as_u64().unwrap();
                    reg_timer_at(&st3, &*peer, at - Duration::from_micros(d), dl - d * 1000);
                }
            } else {
                for d in o["d"].as_array().unwrap() {
                    reg_timer(&st3, &*peer, d.as_u64().unwrap());
                }
            }
        }
        td.with(|t| *t = true);
    });
    let mut sent = Vec::new();
    for (i, o) in ops.iter().enumerate() {
        let n = i as u64;
        let line = match o["k"].as_str().unwrap() {
            "msg" => {
                sleep(o["gap"].as_u64().unwrap() * 1000);
                json!({"method": "poke", "params": {"n": n}})
            }
            "m_idle" => json!({"method": "idle", "params": {"tokens": [n, o["c"]]}}),
            "m_timer" => {
                let mut t = vec![json!([n, 0])];
                for d in o["d"].as_array().unwrap() {
                    t.push(json!([d, 0]));
                }
                json!({"method": "timers", "params": {"t": t}})
            }
            "pause" => {
                sleep(o["us"].as_u64().unwrap() * 1000);
                continue;
            }
            _ => continue,
        };
        sent.push(n);
        put(&mut p_out, &line.to_string());
    }
    // after all activity stops, everything scheduled fires promptly
    if !eventually(|| tdone.with(|t| *t) && st.with(|s| s.msgs.len() == sent.len())) {
        violation!("stuck", "messages were not handled within 60 s");
    }
    sim().faults_on = false;
    sleep(60 * MS);
    let slack = (work * 1000 + MS) * 60 + 2 * SEC;
    let ok = wait_for(now() + slack, 5 * MS, || {
        st.with(|s| s.fired.len() == s.timers.len() + s.idle_sched.len())
    });
    if !ok {
        st.with(|s| {
            let t: Vec<usize> = s.timers.keys().filter(|k| !s.fired.contains_key(k)).cloned().collect();
            let i: Vec<usize> = s.idle_sched.iter().map(|x| x.0).filter(|k| !s.fired.contains_key(k)).collect();
            violation!("never-fired", "timers {:?} and idle tokens {:?} did not run", t, i);
        });
    }
    // a lone timer on a quiet loop is not late
    sleep(2 * SEC); // outlast a stall injected just before faults stopped
    let t0 = now();
    put(&mut p_out, &json!({"method": "timers", "params": {"t": [[9999, 0], [15_000, 0]]}}).to_string());
    if !wait_for(t0 + SEC + work * 3000, MS, || st.with(|s| s.fired.len() == s.timers.len() + s.idle_sched.len() && s.msgs.len() > sent.len())) {
        violation!("late-timer", "a 15 ms timer on a quiet loop had not run after 1 s");
    }
    sent.push(9999);
    st.with(|s| {
        if s.msgs != sent {
            violation!("order", "messages handled {:?}, sent {:?}", s.msgs, sent);
        }
        let (nt, ni) = (s.timers.len() as u64, s.idle_sched.len() as u64);
        note("timers", nt);
        note("idle_tokens", ni);
        if nt + ni > 3 {
            note("nontrivial", 1);
        }
    });
    drop(p_out);
    if !wait_for(now() + 5 * SEC, 5 * MS, || ended.with(|e| *e)) {
        violation!("loop-stuck", "loop did not end at EOF");
    }
}
pub const C04: Prop = Prop {
    id: "C04",
    gen: gen_c04,
    run: run_c04,
    rule: "a seed makes idle tokens and timers scheduled from inside handlers and from another thread, messages in between, handlers of 0-9 ms, and timer/thread stalls; non-trivial: more than three tokens",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
