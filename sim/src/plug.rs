//! Scripted plugin processes: they speak the plugin protocol over the simulated pipes, keep every
//! message they got, and acknowledge updates at once, late, in batches or never.
use crate::props::rpcw::{put, Lines};
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct PView {
    pub rev: u64,
    /// the text at `rev`, once it has been fetched or told by the harness
    pub text: Option<String>,
    pub len: usize,
    pub lines: usize,
    pub syntax: String,
    pub path: Option<String>,
    pub config: Value,
    pub begun: u32,
    pub ended: u32,
    /// every revision this plugin has been told about, with its text when known
    pub hist: Vec<(u64, Option<String>)>,
    pub groups: Vec<u64>,
}
#[derive(Default)]
pub struct PState {
    pub plugin_id: Option<u64>,
    pub log: Vec<(u64, String, Value)>,
    pub views: BTreeMap<String, PView>,
    pub held: Vec<u64>,
    pub replies: HashMap<u64, Result<Value, Value>>,
    pub next_id: u64,
    pub ended: bool,
    pub rx: u64,
    pub shutdown: bool,
    /// the plugin has stopped reading its input
    pub frozen: bool,
}
#[derive(Clone, Debug)]
pub enum Ack {
    Now,
    After(u64),
    Hold,
}
pub type Hook = Arc<dyn Fn(&Plug, &str, &Value) -> bool + Send + Sync>;
#[derive(Clone)]
pub struct Spec {
    pub name: String,
    pub ack: Ack,
    /// pause between messages read
    pub slow: u64,
    /// complain about messages that break the lifecycle rules
    pub strict: bool,
    pub hook: Option<Hook>,
    pub languages: String,
}
impl Spec {
    pub fn new(name: &str) -> Spec {
        Spec { name: name.into(), ack: Ack::Now, slow: 0, strict: true, hook: None, languages: String::new() }
    }
}
#[derive(Clone)]
pub struct Plug {
    pub name: String,
    pub pid: u32,
    pub instance: u32,
    pub out: Arc<Mailbox<Option<String>>>,
    pub st: Arc<Shared1<PState>>,
    pub ack: Arc<Shared1<Ack>>,
}
#[derive(Clone)]
pub struct Plugs(pub Arc<Shared1<Vec<Plug>>>);

impl Plugs {
    pub fn new() -> Plugs {
        Plugs(Arc::new(Shared1::new(Vec::new())))
    }
    /// Writes the manifest and makes the program known; the core starts it with `client_started`.
    pub fn install(&self, cfg: &str, s: Spec) {
        let dir = format!("{}/plugins/{}", cfg, s.name);
        vos::h_mkdirs(&dir);
        let exe = format!("{}/run", dir);
        vos::h_write(&exe, b"#!");
        vos::h_write(
            &format!("{}/manifest.toml", dir),
            format!("name = \"{}\"\nversion = \"0.1\"\nscope = \"global\"\nexec_path = \"./run\"\nactivations = [\"autorun\"]\n{}", s.name, s.languages).as_bytes(),
        );
        let all = self.0.clone();
        vos::register_program(&exe, Arc::new(move |io| body(io, &s, &all)));
    }
    pub fn all(&self) -> Vec<Plug> {
        self.0.with(|v| v.clone())
    }
    /// The newest instance of a plugin.
    pub fn get(&self, name: &str) -> Option<Plug> {
        self.0.with(|v| v.iter().rev().find(|p| p.name == name).cloned())
    }
}
fn body(io: vos::ProcIo, s: &Spec, all: &Arc<Shared1<Vec<Plug>>>) {
    let p = Plug {
        name: s.name.clone(),
        pid: io.pid,
        instance: io.instance,
        out: Arc::new(Mailbox::new()),
        st: Arc::new(Shared1::new(PState::default())),
        ack: Arc::new(Shared1::new(s.ack.clone())),
    };
    all.with(|v| v.push(p.clone()));
    let mut w = io.stdout;
    let o = p.out.clone();
    spawn(io.pid, &format!("{}-writer", p.name), move || loop {
        match o.pop_until(u64::MAX) {
            Some(Some(l)) => {
                // a message that starts with \u{1} is written as it is, without an end of line
                let ok = match l.strip_prefix('\u{1}') {
                    Some(part) => std::io::Write::write_all(&mut w, part.as_bytes()).is_ok(),
                    None => put(&mut w, &l),
                };
                if !ok {
                    break;
                }
            }
            _ => break,
        }
    });
    let mut l = Lines::new(io.stdin);
    while let Some(m) = Lines::next(&mut l) {
        p.receive(&m, s);
        if s.strict && p.st.with(|x| x.shutdown) {
            // whatever else comes is still looked at
            p.out.push(None);
        }
        while p.st.with(|x| x.frozen) {
            sleep(50 * MS);
        }
        if s.slow > 0 {
            sleep(s.slow);
        }
    }
    p.st.with(|x| x.ended = true);
    p.out.push(None);
}
impl Plug {
    pub fn raw(&self, s: String) {
        self.out.push(Some(s));
    }
    pub fn notify(&self, m: &str, v: &str, mut p: Value) {
        p["view_id"] = json!(v);
        p["plugin_id"] = json!(self.st.with(|s| s.plugin_id.unwrap_or(0)));
        self.raw(json!({"method": m, "params": p}).to_string());
    }
    pub fn send(&self, m: &str, v: &str, mut p: Value) -> u64 {
        p["view_id"] = json!(v);
        p["plugin_id"] = json!(self.st.with(|s| s.plugin_id.unwrap_or(0)));
        let id = self.st.with(|s| {
            s.next_id += 1;
            s.next_id
        });
        self.raw(json!({"id": id, "method": m, "params": p}).to_string());
        id
    }
    /// Sends a request and waits for its answer; None if the core never answers or the plugin died.
    pub fn request(&self, m: &str, v: &str, p: Value) -> Option<Result<Value, Value>> {
        let id = self.send(m, v, p);
        eventually_in(20 * SEC, MS, || self.st.with(|s| s.replies.contains_key(&id) || s.ended) || self.dead());
        self.st.with(|s| s.replies.remove(&id))
    }
    pub fn dead(&self) -> bool {
        let _g = Rt::enter();
        vos::vos().procs.get(&self.pid).map_or(true, |p| p.exited.is_some())
    }
    pub fn kill(&self) {
        vos::kill_process(self.pid, 9);
    }
    pub fn hang_up(&self) {
        self.out.push(None);
    }
    pub fn release(&self) -> usize {
        let l = self.st.with(|s| std::mem::take(&mut s.held));
        for id in &l {
            self.raw(json!({"id": id, "result": 0}).to_string());
        }
        l.len()
    }
    pub fn set_ack(&self, a: Ack) {
        self.ack.with(|x| *x = a);
    }
    pub fn view(&self, v: &str) -> Option<PView> {
        self.st.with(|s| s.views.get(v).cloned())
    }
    pub fn rx(&self) -> u64 {
        self.st.with(|s| s.rx)
    }
    fn receive(&self, line: &str, s: &Spec) {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => violation!("plugin-garbled", "plugin {} was sent something that is not JSON: {}", self.name, line),
        };
        if std::env::var_os("XISIM_MSG").is_some() {
            slog!("{}/{} <- {}", self.name, self.instance, line);
        }
        self.st.with(|s| s.rx += 1);
        let t = now();
        let m = match v["method"].as_str() {
            Some(m) => m.to_string(),
            None => {
                let id = v["id"].as_u64().unwrap_or(0);
                let r = if let Some(e) = v.get("error") { Err(e.clone()) } else { Ok(v["result"].clone()) };
                if self.st.with(|x| x.replies.insert(id, r)).is_some() && s.strict {
                    violation!("plugin-double-answer", "request {} of plugin {} was answered twice", id, self.name);
                }
                return;
            }
        };
        let p = v["params"].clone();
        self.st.with(|st| st.log.push((t, m.clone(), p.clone())));
        self.book(&m, &p, s.strict);
        if let Some(h) = &s.hook {
            if h(self, &m, &v) {
                return;
            }
        }
        if let Some(id) = v["id"].as_u64() {
            match m.as_str() {
                "update" => match self.ack.with(|a| a.clone()) {
                    Ack::Now => self.raw(json!({"id": id, "result": 0}).to_string()),
                    Ack::Hold => self.st.with(|s| s.held.push(id)),
                    Ack::After(d) => {
                        let p = self.clone();
                        spawn(self.pid, "late-ack", move || {
                            sleep(d);
                            p.raw(json!({"id": id, "result": 0}).to_string());
                        });
                    }
                },
                "collect_trace" => self.raw(json!({"id": id, "result": []}).to_string()),
                _ => self.raw(json!({"id": id, "error": {"code": 404, "message": "unknown"}}).to_string()),
            }
        }
    }
    /// Keeps the books about views; the rules of the lifecycle are checked here.
    fn book(&self, m: &str, p: &Value, strict: bool) {
        let me = format!("{}/{}", self.name, self.instance);
        let begin = |b: &Value, how: &str| {
            for v in b["views"].as_array().unwrap() {
                let id = v.as_str().unwrap().to_string();
                self.st.with(|s| {
                    let e = s.views.entry(id.clone()).or_default();
                    e.begun += 1;
                    if strict && e.begun > 1 {
                        violation!("begin-twice", "plugin {} is given {} a second time, by {}", me, id, how);
                    }
                    e.rev = b["rev"].as_u64().unwrap();
                    e.len = b["buf_size"].as_u64().unwrap() as usize;
                    e.lines = b["nb_lines"].as_u64().unwrap() as usize;
                    e.syntax = b["syntax"].as_str().unwrap_or("").into();
                    e.path = b["path"].as_str().map(String::from);
                    e.config = b["config"].clone();
                    e.hist.push((e.rev, None));
                });
            }
        };
        self.st.with(|s| {
            if strict && s.shutdown {
                violation!("after-shutdown", "plugin {} was sent {} after shutdown", me, m);
            }
            if strict && s.plugin_id.is_none() && !matches!(m, "ping" | "initialize" | "tracing_config" | "collect_trace" | "shutdown") {
                violation!("before-initialize", "plugin {} was sent {} before initialize", me, m);
            }
        });
        match m {
            "initialize" => {
                self.st.with(|s| {
                    if strict && s.plugin_id.is_some() {
                        violation!("initialize-twice", "plugin {} is initialized twice", me);
                    }
                    s.plugin_id = p["plugin_id"].as_u64();
                });
                for b in p["buffer_info"].as_array().unwrap() {
                    begin(b, "initialize");
                }
            }
            "new_buffer" => {
                for b in p["buffer_info"].as_array().unwrap() {
                    begin(b, "new_buffer");
                }
            }
            "shutdown" => self.st.with(|s| s.shutdown = true),
            "did_close" | "did_save" | "update" | "config_changed" | "language_changed" | "get_hover" => {
                let id = p["view_id"].as_str().unwrap_or("").to_string();
                self.st.with(|s| {
                    let e = s.views.entry(id.clone()).or_default();
                    if strict && e.begun == 0 {
                        violation!("unknown-view", "plugin {} was sent {} for {}, which it was never given", me, m, id);
                    }
                    if strict && e.ended > 0 {
                        violation!("ended-view", "plugin {} was sent {} for {} after that view had been closed", me, m, id);
                    }
                    match m {
                        "did_close" => e.ended += 1,
                        "did_save" => e.path = p["path"].as_str().map(String::from),
                        "language_changed" => e.syntax = p["new_lang"].as_str().unwrap_or("").into(),
                        "config_changed" => {
                            if !e.config.is_object() {
                                e.config = json!({});
                            }
                            for (k, x) in p["changes"].as_object().unwrap() {
                                e.config[k] = x.clone();
                            }
                        }
                        "update" => {
                            let rev = p["rev"].as_u64().unwrap();
                            if strict && e.hist.iter().any(|h| h.0 == rev) {
                                violation!("rev-twice", "plugin {} was told about revision {} of {} twice", me, rev, id);
                            }
                            let old = e.len;
                            let t = e.text.take();
                            if p["delta"].is_object() {
                                let d = &p["delta"];
                                if strict && d["base_len"].as_u64() != Some(old as u64) {
                                    violation!("rev-gap", "plugin {} has {} bytes of {} and is sent a delta for {} bytes", me, old, id, d["base_len"]);
                                }
                                e.text = t.map(|t| apply_delta(&t, d));
                            }
                            e.len = p["new_len"].as_u64().unwrap() as usize;
                            e.lines = p["new_line_count"].as_u64().unwrap() as usize;
                            e.rev = rev;
                            if strict && e.text.as_ref().map_or(false, |t| t.len() != e.len || t.matches('\n').count() + 1 != e.lines) {
                                violation!("update-counts", "plugin {} is told that {} has {} bytes in {} lines, which is not what the deltas give", me, id, e.len, e.lines);
                            }
                            e.hist.push((rev, e.text.clone()));
                            if let Some(g) = p["undo_group"].as_u64() {
                                e.groups.push(g);
                            }
                        }
                        _ => {}
                    }
                });
            }
            _ => {}
        }
    }
    /// Reads the document in chunks at the revision last heard of. None if that revision is gone by then.
    pub fn fetch(&self, v: &str, chunk: usize) -> Option<(u64, String)> {
        let rev = self.view(v)?.rev;
        let mut s = String::new();
        let len = self.st.with(|st| st.views[v].hist.iter().find(|h| h.0 == rev).map(|_| st.views[v].len))?;
        loop {
            let r = self.request("get_data", v, json!({"start": s.len(), "unit": "utf8", "max_size": chunk, "rev": rev}))?.ok()?;
            let c = r["chunk"].as_str()?;
            if r["offset"].as_u64() != Some(s.len() as u64) {
                violation!("get-data", "plugin {} asked for data at {} and got {}", self.name, s.len(), r["offset"]);
            }
            if c.is_empty() {
                break;
            }
            s.push_str(c);
            if s.len() >= len {
                break;
            }
        }
        Some((rev, s))
    }
    /// Tells the books the text of a revision, from which the deltas give the later ones.
    pub fn know(&self, v: &str, rev: u64, text: &str) {
        self.st.with(|s| {
            let e = match s.views.get_mut(v) {
                Some(e) => e,
                None => return,
            };
            let at = match e.hist.iter().position(|h| h.0 == rev) {
                Some(i) => i,
                None => return,
            };
            let ds: Vec<Value> = s.log.iter().filter(|l| l.1 == "update" && l.2["view_id"].as_str() == Some(v)).map(|l| l.2.clone()).collect();
            let mut t = Some(text.to_string());
            e.hist[at].1 = t.clone();
            for i in at + 1..e.hist.len() {
                let d = ds.iter().find(|d| d["rev"].as_u64() == Some(e.hist[i].0));
                t = match (t, d) {
                    (Some(t), Some(d)) if d["delta"].is_object() => Some(apply_delta(&t, &d["delta"])),
                    _ => None,
                };
                e.hist[i].1 = t.clone();
            }
            e.text = t;
        })
    }
}
/// Applies a delta in its wire form.
pub fn apply_delta(t: &str, d: &Value) -> String {
    let mut s = String::new();
    for e in d["els"].as_array().unwrap() {
        if let Some(c) = e.get("copy") {
            let (a, b) = (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize);
            match t.get(a..b) {
                Some(x) => s.push_str(x),
                None => violation!("bad-delta", "a delta copies {}..{} of a text of {} bytes", a, b, t.len()),
            }
        } else {
            s.push_str(e["insert"].as_str().unwrap());
        }
    }
    s
}
/// The wire form of a delta that replaces `a..b` by `ins`.
pub fn delta(len: usize, a: usize, b: usize, ins: &str) -> Value {
    let mut els = Vec::new();
    if a > 0 {
        els.push(json!({"copy": [0, a]}));
    }
    if !ins.is_empty() {
        els.push(json!({ "insert": ins }));
    }
    if b < len {
        els.push(json!({"copy": [b, len]}));
    }
    json!({"els": els, "base_len": len})
}
