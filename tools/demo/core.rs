// A front-end for demos: the real core in this process, spoken to in JSON over a socket pair.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use xi_core_lib::XiCore;
use xi_rpc::RpcLoop;

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("xidemo-{}-{}", name, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    pub fn file(&self, n: &str, text: &[u8]) -> String {
        let p = self.0.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text).unwrap();
        p.to_str().unwrap().into()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    pub cursor: Vec<usize>,
    pub styles: Vec<i64>,
    pub ln: Option<u64>,
}
#[derive(Default)]
pub struct State {
    pub replies: BTreeMap<u64, Result<Value, Value>>,
    /// all messages from the core other than answers
    pub got: Vec<Value>,
    pub lines: BTreeMap<String, Vec<Option<Line>>>,
    pub pristine: BTreeMap<String, bool>,
    pub config: BTreeMap<String, Value>,
    pub last: Option<Instant>,
    pub ended: bool,
}
#[derive(Clone)]
pub struct Core {
    w: Arc<Mutex<UnixStream>>,
    pub st: Arc<(Mutex<State>, Condvar)>,
    next: Arc<Mutex<u64>>,
}
fn nums(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
fn update(old: &[Option<Line>], u: &Value) -> Vec<Option<Line>> {
    let mut new = Vec::new();
    let mut ix = 0;
    for op in u["ops"].as_array().unwrap() {
        let n = op["n"].as_u64().unwrap() as usize;
        let renum = |v: &mut [Option<Line>]| {
            if let Some(mut ln) = op["ln"].as_u64() {
                for l in v.iter_mut().flatten() {
                    if l.ln.is_some() {
                        l.ln = Some(ln);
                        ln += 1;
                    }
                }
            }
        };
        match op["op"].as_str().unwrap() {
            "copy" => {
                let at = new.len();
                new.extend_from_slice(&old[ix..ix + n]);
                ix += n;
                renum(&mut new[at..]);
            }
            "skip" => ix += n,
            "invalidate" => new.extend((0..n).map(|_| None)),
            "ins" => {
                for l in op["lines"].as_array().unwrap() {
                    new.push(Some(Line { text: l["text"].as_str().unwrap().into(), cursor: nums(&l["cursor"]).into_iter().map(|x| x as usize).collect(), styles: nums(&l["styles"]), ln: l["ln"].as_u64() }));
                }
            }
            "update" => {
                let at = new.len();
                for l in op["lines"].as_array().unwrap() {
                    let mut o = old[ix].clone();
                    ix += 1;
                    if let Some(o) = &mut o {
                        if l.get("cursor").is_some() {
                            o.cursor = nums(&l["cursor"]).into_iter().map(|x| x as usize).collect();
                        }
                        if l.get("styles").is_some() {
                            o.styles = nums(&l["styles"]);
                        }
                    }
                    new.push(o);
                }
                renum(&mut new[at..]);
            }
            o => panic!("op {}", o),
        }
    }
    new
}
impl Core {
    pub fn start(config_dir: Option<&Path>) -> Core {
        let (a, b) = UnixStream::pair().unwrap();
        let out = b.try_clone().unwrap();
        let st: Arc<(Mutex<State>, Condvar)> = Arc::new(Default::default());
        let s2 = st.clone();
        std::thread::spawn(move || {
            let mut core = XiCore::new();
            let mut lp = RpcLoop::new(out);
            let _ = lp.mainloop(|| BufReader::new(b), &mut core);
        });
        let c = Core { w: Arc::new(Mutex::new(a.try_clone().unwrap())), st, next: Arc::new(Mutex::new(1)) };
        let c2 = c.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(a).lines() {
                let l = match l {
                    Ok(l) => l,
                    Err(_) => break,
                };
                let v: Value = serde_json::from_str(&l).unwrap();
                c2.receive(v);
            }
            s2.0.lock().unwrap().ended = true;
            s2.1.notify_all();
        });
        let mut p = json!({});
        if let Some(d) = config_dir {
            p["config_dir"] = json!(d);
        }
        c.notify("client_started", p);
        c
    }
    fn receive(&self, v: Value) {
        let mut s = self.st.0.lock().unwrap();
        s.last = Some(Instant::now());
        if v.get("method").is_some() {
            if v.get("id").is_some() {
                let w: Vec<Vec<f64>> = v["params"].as_array().unwrap().iter().map(|r| r["strings"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().chars().count() as f64).collect()).collect();
                let id = v["id"].clone();
                drop(s);
                self.send(json!({"id": id, "result": w}));
                return;
            }
            let p = &v["params"];
            let id = p["view_id"].as_str().unwrap_or("").to_string();
            match v["method"].as_str().unwrap() {
                "update" => {
                    let old = s.lines.remove(&id).unwrap_or_default();
                    let new = update(&old, &p["update"]);
                    s.lines.insert(id.clone(), new);
                    s.pristine.insert(id, p["update"]["pristine"].as_bool().unwrap());
                }
                "config_changed" => {
                    let c = s.config.entry(id).or_insert(json!({}));
                    for (k, x) in p["changes"].as_object().unwrap() {
                        c[k] = x.clone();
                    }
                }
                _ => {}
            }
            s.got.push(v);
        } else {
            let r = match v.get("result") {
                Some(r) => Ok(r.clone()),
                None => Err(v["error"].clone()),
            };
            s.replies.insert(v["id"].as_u64().unwrap(), r);
        }
        drop(s);
        self.st.1.notify_all();
    }
    pub fn send(&self, v: Value) {
        let mut s = v.to_string();
        s.push('\n');
        let _ = self.w.lock().unwrap().write_all(s.as_bytes());
    }
    pub fn notify(&self, m: &str, p: Value) {
        self.send(json!({"method": m, "params": p}));
    }
    pub fn request(&self, m: &str, p: Value) -> Result<Value, Value> {
        let id = {
            let mut n = self.next.lock().unwrap();
            *n += 1;
            *n
        };
        self.send(json!({"id": id, "method": m, "params": p}));
        let t0 = Instant::now();
        let mut s = self.st.0.lock().unwrap();
        loop {
            if let Some(r) = s.replies.remove(&id) {
                return r;
            }
            if s.ended || t0.elapsed() > Duration::from_secs(20) {
                fail(&format!("no answer to {} {}", m, p));
            }
            s = self.st.1.wait_timeout(s, Duration::from_millis(100)).unwrap().0;
        }
    }
    pub fn open(&self, path: Option<&str>) -> String {
        let p = match path {
            Some(f) => json!({ "file_path": f }),
            None => json!({}),
        };
        self.request("new_view", p).unwrap().as_str().unwrap().to_string()
    }
    pub fn edit(&self, v: &str, m: &str, p: Value) {
        self.notify("edit", json!({"view_id": v, "method": m, "params": p}));
    }
    pub fn cmd(&self, v: &str, m: &str) {
        self.edit(v, m, json!([]));
    }
    pub fn ask(&self, v: &str, m: &str) -> Value {
        self.request("edit", json!({"view_id": v, "method": m, "params": []})).unwrap()
    }
    pub fn insert(&self, v: &str, s: &str) {
        self.edit(v, "insert", json!({ "chars": s }));
    }
    pub fn gesture(&self, v: &str, line: u64, col: u64, ty: Value) {
        self.edit(v, "gesture", json!({"line": line, "col": col, "ty": ty}));
    }
    pub fn text(&self, v: &str) -> String {
        self.request("debug_get_contents", json!({ "view_id": v })).unwrap().as_str().unwrap().to_string()
    }
    /// Waits until the core has been silent for a while.
    pub fn settle(&self) {
        self.settle_for(150)
    }
    pub fn settle_for(&self, ms: u64) {
        let t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let quiet = {
                let s = self.st.0.lock().unwrap();
                if s.ended {
                    fail("the core ended");
                }
                s.last.map_or(true, |t| t.elapsed() > Duration::from_millis(ms))
            };
            if t0.elapsed() > Duration::from_millis(ms) && quiet {
                return;
            }
            if t0.elapsed() > Duration::from_secs(30) {
                return;
            }
        }
    }
    /// Whether something holds within ten seconds.
    pub fn within(&self, f: impl Fn() -> bool) -> bool {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(10) {
            if f() {
                return true;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        f()
    }
    pub fn lines(&self, v: &str) -> Vec<Option<Line>> {
        self.st.0.lock().unwrap().lines.get(v).cloned().unwrap_or_default()
    }
    pub fn pristine(&self, v: &str) -> bool {
        self.st.0.lock().unwrap().pristine[v]
    }
    pub fn got(&self, m: &str) -> Vec<Value> {
        self.st.0.lock().unwrap().got.iter().filter(|g| g["method"] == m).map(|g| g["params"].clone()).collect()
    }
    /// The byte offsets of all carets shown.
    pub fn carets(&self, v: &str) -> Vec<usize> {
        let mut at = 0;
        let mut out = vec![];
        for l in self.lines(v) {
            let l = l.expect("line not sent");
            out.extend(l.cursor.iter().map(|c| at + c));
            at += l.text.len();
        }
        out
    }
    pub fn config(&self, v: &str, k: &str) -> Value {
        self.st.0.lock().unwrap().config[v][k].clone()
    }
}
pub fn fail(s: &str) -> ! {
    println!("DEMO FAILED: {}", s);
    // scratch directories are removed by the caller's shell when the process does not
    std::process::exit(1)
}
pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("DEMO FAILED: {}: got {:?}, expected {:?}", what, got, want);
        std::process::exit(1)
    }
}

// ---------------------------------------------------------------- plugins
/// Installs this very program as plugin `name`: the core starts it with the name as argument.
pub fn install(config: &Path, name: &str, extra: &str) {
    let d = config.join("plugins").join(name);
    std::fs::create_dir_all(&d).unwrap();
    let sh = d.join("run.sh");
    std::fs::write(&sh, format!("#!/bin/sh\nexec {} plugin {} {}\n", std::env::current_exe().unwrap().display(), name, config.display())).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&sh, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::write(d.join("manifest.toml"), format!("name = \"{}\"\nversion = \"0\"\nexec_path = \"./run.sh\"\n{}\n", name, extra)).unwrap();
}
/// When started as a plugin: its name and the configuration directory.
pub fn as_plugin() -> Option<(String, PathBuf)> {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("plugin") {
        Some((a[2].clone(), PathBuf::from(&a[3])))
    } else {
        None
    }
}
pub fn say(v: Value) {
    let mut s = v.to_string();
    s.push('\n');
    let o = std::io::stdout();
    let mut o = o.lock();
    if o.write_all(s.as_bytes()).is_err() || o.flush().is_err() {
        std::process::exit(0);
    }
}
/// Messages from the core to this plugin.
pub fn hear() -> impl Iterator<Item = Value> {
    BufReader::new(std::io::stdin()).lines().map_while(|l| l.ok()).map(|l| serde_json::from_str(&l).unwrap())
}
