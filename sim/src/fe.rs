//! World A: the whole real core, driven by a front-end that this file plays. The front-end keeps the
//! line cache the protocol documentation describes and answers the core's requests.
use crate::props::rpcw::{put, Lines};
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::BufReader;
use std::sync::Arc;

pub const CORE: u32 = 1;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Line {
    pub text: String,
    pub cursor: Vec<usize>,
    pub styles: Vec<i64>,
    pub ln: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Mirror {
    pub lines: Vec<Option<Line>>,
    pub pristine: bool,
    pub annotations: Vec<Value>,
    pub config: Value,
    pub language: Option<String>,
    pub plugins: BTreeMap<String, bool>,
    pub find_status: Value,
    pub replace_status: Value,
    pub scroll_to: Option<(usize, usize)>,
    pub status: BTreeMap<String, String>,
    pub cmds: BTreeMap<String, Value>,
    pub updates: u64,
    pub closed: bool,
}
impl Mirror {
    pub fn text(&self) -> Option<String> {
        let mut s = String::new();
        for l in &self.lines {
            s.push_str(&l.as_ref()?.text);
        }
        Some(s)
    }
}
#[derive(Default)]
pub struct FeState {
    next_id: u64,
    replies: HashMap<u64, Result<Value, Value>>,
    waiting: u64,
    pub views: BTreeMap<String, Mirror>,
    pub alerts: Vec<String>,
    /// every notification except `update`
    pub notes: Vec<(u64, String, Value)>,
    pub styles: BTreeMap<u64, Value>,
    pub hovers: Vec<(u64, Value)>,
    pub hover_views: Vec<String>,
    pub rx: u64,
    pub ended: bool,
    pub core_done: bool,
    pub measured: u64,
    pub keep_notes: bool,
    pub plugins_around: bool,
}
#[derive(Clone)]
pub struct Fe {
    out: Arc<Mailbox<Option<String>>>,
    pub st: Arc<Shared1<FeState>>,
    pub width: fn(&str, u64) -> f64,
}

/// Width of a string as the simulated front-end measures it.
pub fn measure(s: &str, _style: u64) -> f64 {
    s.chars()
        .map(|c| match c {
            '\n' | '\r' => 0.0,
            '\t' => 4.0,
            'i' | 'l' | '.' => 0.5,
            'W' | 'm' => 1.5,
            c if (c as u32) < 0x300 => 1.0,
            c if (0x300..0x370).contains(&(c as u32)) || c == '\u{200d}' || c == '\u{fe0f}' => 0.0,
            _ => 2.0,
        })
        .sum()
}

pub struct Start {
    pub config_dir: Option<String>,
    pub extras_dir: Option<String>,
    pub cap: usize,
    pub calm: bool,
}
impl Default for Start {
    fn default() -> Start {
        Start { config_dir: None, extras_dir: None, cap: 65536, calm: false }
    }
}

impl Fe {
    pub fn start(s: Start) -> Fe {
        let fe = Fe::start_raw(s.cap, s.calm);
        fe.start_session(s);
        fe
    }
    pub fn start_session(&self, s: Start) {
        let mut p = json!({});
        self.st.with(|st| st.plugins_around = s.config_dir.is_some());
        if let Some(c) = &s.config_dir {
            p["config_dir"] = json!(c);
        }
        if let Some(c) = &s.extras_dir {
            p["client_extras_dir"] = json!(c);
        }
        self.notify("client_started", p);
    }
    pub fn start_raw(cap: usize, calm: bool) -> Fe {
        let (c_in, mut f_out) = vos::channel(CORE, 0, cap);
        let (f_in, c_out) = vos::channel(0, CORE, cap);
        if calm {
            for f in [&c_in, &f_out, &f_in, &c_out] {
                vos::set_calm(f.fd);
            }
        }
        let st = Arc::new(Shared1::new(FeState { keep_notes: true, ..FeState::default() }));
        let out: Arc<Mailbox<Option<String>>> = Arc::new(Mailbox::new());
        let fe = Fe { out: out.clone(), st: st.clone(), width: measure };
        let st2 = st.clone();
        spawn(CORE, "core", move || {
            simmono::run_core(Box::new(move || Box::new(BufReader::new(c_in)) as simmono::In), Box::new(c_out));
            st2.with(|s| s.core_done = true);
        });
        let o2 = out.clone();
        spawn(0, "fe-writer", move || loop {
            match o2.pop_until(u64::MAX) {
                Some(Some(l)) => {
                    if !put(&mut f_out, &l) {
                        break;
                    }
                }
                _ => break,
            }
        });
        let fe2 = fe.clone();
        spawn(0, "fe-reader", move || {
            let mut l = Lines::new(f_in);
            while let Some(s) = Lines::next(&mut l) {
                fe2.receive(&s);
            }
            fe2.st.with(|s| s.ended = true);
        });
        fe
    }
    pub fn raw(&self, s: String) {
        self.out.push(Some(s));
    }
    pub fn hang_up(&self) {
        self.out.push(None);
    }
    pub fn notify(&self, m: &str, p: Value) {
        self.raw(json!({"method": m, "params": p}).to_string());
    }
    pub fn edit(&self, v: &str, m: &str, p: Value) {
        self.notify("edit", json!({"view_id": v, "method": m, "params": p}));
    }
    pub fn send(&self, m: &str, p: Value) -> u64 {
        let id = self.st.with(|s| {
            s.next_id += 1;
            s.waiting += 1;
            s.next_id
        });
        self.raw(json!({"id": id, "method": m, "params": p}).to_string());
        id
    }
    pub fn reply(&self, id: u64) -> Option<Result<Value, Value>> {
        self.st.with(|s| s.replies.get(&id).cloned())
    }
    pub fn wait(&self, id: u64) -> Result<Value, Value> {
        let ok = eventually_in(30 * SEC, MS, || self.st.with(|s| s.replies.contains_key(&id) || s.ended) || sim().panics.iter().any(|p| p.proc == CORE));
        self.check_alive();
        if !ok || self.reply(id).is_none() {
            violation!("no-answer", "request {} is never answered although the core is idle", id);
        }
        self.st.with(|s| s.replies.remove(&id).unwrap())
    }
    pub fn request(&self, m: &str, p: Value) -> Result<Value, Value> {
        let id = self.send(m, p);
        self.wait(id)
    }
    pub fn edit_request(&self, v: &str, m: &str, p: Value) -> Result<Value, Value> {
        self.request("edit", json!({"view_id": v, "method": m, "params": p}))
    }
    pub fn new_view(&self, path: Option<&str>) -> String {
        let r = self.request("new_view", path.map_or(json!({}), |p| json!({ "file_path": p })));
        match r {
            Ok(Value::String(s)) => s,
            o => violation!("new-view", "new_view({:?}) answered {:?}", path, o),
        }
    }
    pub fn contents(&self, v: &str) -> Option<String> {
        match self.request("debug_get_contents", json!({ "view_id": v })) {
            Ok(Value::String(s)) => Some(s),
            _ => None,
        }
    }
    /// A panic in the core, or its exit, is a violation of whatever is being checked.
    pub fn check_alive(&self) {
        if let Some(p) = sim().panics.iter().find(|p| p.proc == CORE) {
            violation!("core-panic", "the core panicked: {} at {}", p.msg, p.loc);
        }
        if self.st.with(|s| s.ended || s.core_done) {
            violation!("core-exit", "the core stopped");
        }
    }
    /// Waits until the core has answered everything and has gone quiet.
    pub fn settle(&self) {
        let was = sim().faults_on;
        sim().faults_on = false;
        self.settle_noisy();
        sim().faults_on = was;
    }
    pub fn settle_noisy(&self) {
        let mut quiet = 0;
        for _ in 0..600 {
            let n = self.st.with(|s| s.rx);
            let _ = self.request("debug_get_contents", json!({"view_id": "view-id-999999"}));
            sleep(15 * MS);
            // our own request produced one answer
            if self.st.with(|s| s.rx) == n + 1 && self.out.len() == 0 {
                quiet += 1;
                if quiet == 2 {
                    self.check_alive();
                    return;
                }
            } else {
                quiet = 0;
            }
        }
        violation!("never-quiet", "the core keeps sending messages although nothing happens");
    }
    pub fn mirror(&self, v: &str) -> Mirror {
        self.st.with(|s| s.views.get(v).cloned().unwrap_or_default())
    }
    pub fn alerts(&self) -> Vec<String> {
        self.st.with(|s| s.alerts.clone())
    }
    pub fn take_notes(&self) -> Vec<(u64, String, Value)> {
        self.st.with(|s| std::mem::take(&mut s.notes))
    }
    /// Closes the connection; the core must end by itself.
    pub fn shutdown(&self) {
        self.hang_up();
        let ok = eventually_in(5 * SEC, MS, || self.st.with(|s| s.core_done));
        if let Some(p) = sim().panics.iter().find(|p| p.proc == CORE) {
            violation!("core-panic", "the core panicked while ending: {} at {}", p.msg, p.loc);
        }
        if !ok {
            violation!("no-exit", "the core does not end after its input has ended");
        }
    }

    fn receive(&self, line: &str) {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => violation!("garbled", "the core sent something that is not JSON: {}", line),
        };
        self.st.with(|s| s.rx += 1);
        if let Some(m) = v["method"].as_str() {
            let p = v["params"].clone();
            if let Some(id) = v.get("id") {
                if m == "measure_width" {
                    let r: Vec<Vec<f64>> = p
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|q| q["strings"].as_array().unwrap().iter().map(|s| (self.width)(s.as_str().unwrap(), q["id"].as_u64().unwrap_or(0))).collect())
                        .collect();
                    self.st.with(|s| s.measured += r.iter().map(|x| x.len() as u64).sum::<u64>());
                    self.raw(json!({"id": id, "result": r}).to_string());
                } else {
                    self.raw(json!({"id": id, "error": {"code": 404, "message": "unknown"}}).to_string());
                }
                return;
            }
            self.note(m, p);
        } else if let Some(id) = v["id"].as_u64() {
            let r = if let Some(e) = v.get("error") { Err(e.clone()) } else { Ok(v["result"].clone()) };
            self.st.with(|s| {
                s.waiting = s.waiting.saturating_sub(1);
                if s.replies.insert(id, r).is_some() {
                    violation!("double-answer", "request {} was answered twice", id)
                }
            });
        } else {
            violation!("garbled", "the core sent a message that is neither call nor answer: {}", line);
        }
    }
    fn note(&self, m: &str, p: Value) {
        let id = p["view_id"].as_str().map(String::from);
        self.st.with(|s| {
            if let Some(id) = &id {
                let v = s.views.entry(id.clone()).or_default();
                match m {
                    "update" => {
                        if std::env::var_os("XISIM_MSG").is_some() {
                            slog!("<= {} {}", id, p["update"]);
                        }
                        apply_update(id, v, &p["update"]);
                        v.updates += 1;
                    }
                    "scroll_to" => v.scroll_to = Some((p["line"].as_u64().unwrap() as usize, p["col"].as_u64().unwrap() as usize)),
                    "config_changed" => {
                        if !v.config.is_object() {
                            v.config = json!({});
                        }
                        for (k, x) in p["changes"].as_object().unwrap() {
                            v.config[k] = x.clone();
                        }
                    }
                    "language_changed" => v.language = p["language_id"].as_str().map(String::from),
                    "plugin_started" => {
                        v.plugins.insert(p["plugin"].as_str().unwrap().into(), true);
                    }
                    "plugin_stopped" => {
                        v.plugins.insert(p["plugin"].as_str().unwrap().into(), false);
                    }
                    "find_status" => v.find_status = p["queries"].clone(),
                    "replace_status" => v.replace_status = p["status"].clone(),
                    "add_status_item" | "update_status_item" => {
                        v.status.insert(p["key"].as_str().unwrap().into(), p["value"].as_str().unwrap().into());
                    }
                    "remove_status_item" => {
                        v.status.remove(p["key"].as_str().unwrap());
                    }
                    "update_cmds" => {
                        v.cmds.insert(p["plugin"].as_str().unwrap().into(), p["cmds"].clone());
                    }
                    _ => {}
                }
            }
            match m {
                "alert" => s.alerts.push(p["msg"].as_str().unwrap_or("").into()),
                "def_style" => {
                    s.styles.insert(p["id"].as_u64().unwrap(), p.clone());
                }
                "show_hover" => {
                    s.hover_views.push(p["view_id"].as_str().unwrap_or("").into());
                    s.hovers.push((p["request_id"].as_u64().unwrap(), p["result"].clone()));
                }
                _ => {}
            }
            if std::env::var_os("XISIM_MSG").is_some() {
                slog!("<- {} {}", m, p);
            }
            if m != "update" && s.keep_notes {
                let t = now();
                s.notes.push((t, m.to_string(), p));
            }
        });
    }
}

fn shift(l: &mut [Option<Line>], first: usize) {
    // `first` is the logical number of the first line; a soft-wrapped first line has no number itself
    if let Some(i) = l.iter().position(|x| x.as_ref().map_or(false, |x| x.ln.is_some())) {
        if l[..i].iter().any(|x| x.is_none()) {
            return; // unknown lines before it: the number cannot be derived
        }
        let want = if i == 0 { first } else { first + 1 };
        let have = l[i].as_ref().unwrap().ln.unwrap();
        for x in l.iter_mut().flatten() {
            if let Some(n) = &mut x.ln {
                *n = (*n as isize + want as isize - have as isize) as usize;
            }
        }
    }
}

/// The documented meaning of an update: a function from the old line cache to the new one.
pub fn apply_update(id: &str, m: &mut Mirror, u: &Value) {
    let mut new: Vec<Option<Line>> = Vec::new();
    let mut ix = 0;
    let old = std::mem::take(&mut m.lines);
    let ops = u["ops"].as_array().unwrap();
    for op in ops {
        let n = op["n"].as_u64().unwrap() as usize;
        let kind = op["op"].as_str().unwrap();
        if n == 0 {
            violation!("update", "{}: an update op with n = 0: {}", id, op);
        }
        if matches!(kind, "copy" | "skip" | "update") && ix + n > old.len() {
            violation!("update", "{}: {} of lines {}..{} of {} lines", id, kind, ix, ix + n, old.len());
        }
        if let Some(l) = op["lines"].as_array() {
            if l.len() != n {
                violation!("update", "{}: {} with n = {} and {} lines", id, kind, n, l.len());
            }
        }
        let nums = |v: &Value| -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() };
        match kind {
            "copy" => {
                let at = new.len();
                new.extend_from_slice(&old[ix..ix + n]);
                ix += n;
                if let Some(l) = op["ln"].as_u64() {
                    shift(&mut new[at..], l as usize);
                }
            }
            "skip" => ix += n,
            "invalidate" => new.extend((0..n).map(|_| None)),
            "ins" => {
                for l in op["lines"].as_array().unwrap() {
                    let text = match l["text"].as_str() {
                        Some(t) => t.to_string(),
                        None => violation!("update", "{}: a line is inserted without text", id),
                    };
                    new.push(Some(Line {
                        text,
                        cursor: nums(&l["cursor"]).into_iter().map(|x| x as usize).collect(),
                        styles: nums(&l["styles"]),
                        ln: l["ln"].as_u64().map(|x| x as usize),
                    }));
                }
            }
            "update" => {
                let at = new.len();
                for l in op["lines"].as_array().unwrap() {
                    let mut o = old[ix].clone();
                    ix += 1;
                    if let Some(o) = &mut o {
                        if l.get("cursor").is_some() {
                            o.cursor = nums(&l["cursor"]).into_iter().map(|x| x as usize).collect();
                        }
                        if l.get("styles").is_some() {
                            o.styles = nums(&l["styles"]);
                        }
                    }
                    new.push(o);
                }
                if let Some(l) = op["ln"].as_u64() {
                    shift(&mut new[at..], l as usize);
                }
            }
            o => violation!("update", "{}: unknown update op {}", id, o),
        }
    }
    m.lines = new;
    m.pristine = u["pristine"].as_bool().unwrap();
    m.annotations = u["annotations"].as_array().cloned().unwrap_or_default();
    slog!("mirror {} has {} lines", id, m.lines.len());
}
