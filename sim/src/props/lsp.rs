//! C25: the language-server plugin between the core and language servers that answer in any order.
use super::edit::*;
use crate::driver::Prop;
use crate::fe::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Server {
    initialized: bool,
    docs: BTreeMap<String, (u64, String)>,
    opened: BTreeMap<String, usize>,
    ids: BTreeSet<i64>,
    ended: bool,
}
/// A request that a server was sent: where, and what it answers.
#[derive(Clone)]
struct Asked {
    uri: String,
    pos: (u64, u64),
    ok: bool,
    sent: bool,
}
#[derive(Default)]
struct World {
    servers: Vec<Server>,
    asked: Vec<Asked>,
}
type W = Arc<Shared1<World>>;

fn utf16(s: &str) -> u64 {
    s.encode_utf16().count() as u64
}
/// The offset of a position, which has to be one of the document.
fn offset(t: &str, p: &Value, what: &str) -> usize {
    let (l, c) = (p["line"].as_u64().unwrap() as usize, p["character"].as_u64().unwrap());
    let line = match t.split('\n').nth(l) {
        Some(x) => x,
        None => violation!("bad-position", "{}: line {} of a document of {} lines: {}", what, l, t.split('\n').count(), short(t)),
    };
    let at: usize = t.split('\n').take(l).map(|x| x.len() + 1).sum();
    let mut n = 0;
    for (i, ch) in line.char_indices() {
        if n == c {
            return at + i;
        }
        n += ch.len_utf16() as u64;
    }
    if c == n + 1 && t[at + line.len()..].starts_with('\n') {
        // counts the end of the line as a character of it
        return at + line.len() + 1;
    }
    if n != c {
        violation!("bad-position", "{}: character {} of {:?}", what, c, short(line));
    }
    at + line.len()
}
fn path_of(uri: &str) -> String {
    let b = uri.strip_prefix("file://").unwrap_or(uri).as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// Reads a message as the protocol defines it; None at the end.
fn read_frame(r: &mut impl Read) -> Option<Value> {
    let mut head = Vec::new();
    let mut b = [0u8; 1];
    while !head.ends_with(b"\r\n\r\n") {
        match r.read(&mut b) {
            Ok(1) => head.push(b[0]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            _ if head.is_empty() => return None,
            _ => {
                slog!("a header ends early: {:?}", String::from_utf8_lossy(&head));
                return None;
            }
        }
        if head.len() > 1000 {
            violation!("framing", "no header: {:?}", String::from_utf8_lossy(&head));
        }
    }
    let h = String::from_utf8_lossy(&head).into_owned();
    let mut len = None;
    for l in h.trim_end().split("\r\n") {
        match l.split_once(": ") {
            Some(("Content-Length", n)) => len = n.parse::<usize>().ok(),
            Some(("Content-Type", _)) => {}
            _ => violation!("framing", "header {:?}", h),
        }
    }
    let n = match len {
        Some(n) => n,
        None => violation!("framing", "no length in {:?}", h),
    };
    let mut body = vec![0; n];
    let mut at = 0;
    while at < n {
        match r.read(&mut body[at..]) {
            Ok(0) => return None,
            Ok(k) => at += k,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return None,
        }
    }
    match serde_json::from_slice(&body) {
        Ok(v) => Some(v),
        Err(e) => violation!("framing", "a body of {} bytes is not a message ({}): {:?}", n, e, short(&String::from_utf8_lossy(&body))),
    }
}
struct Out {
    f: Mutex<vos::VFile>,
    k: Shared1<u64>,
    style: u64,
}
impl Out {
    /// Sends messages with the header in one of the allowed forms, in pieces.
    fn send(&self, ms: &[Value]) {
        let mut b = Vec::new();
        for m in ms {
            let s = m.to_string();
            let k = self.k.with(|k| {
                *k += 1;
                *k + self.style
            });
            let n = s.len();
            let h = match k % 4 {
                0 => format!("Content-Length: {}\r\n\r\n", n),
                1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", n),
                2 => format!("content-length: {}\r\n\r\n", n),
                _ => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", n),
            };
            b.extend_from_slice(h.as_bytes());
            b.extend_from_slice(s.as_bytes());
        }
        let mut f = self.f.lock().unwrap();
        let step = if self.style % 3 == 0 { b.len().max(1) } else { (self.style as usize * 7) % 40 + 3 };
        for c in b.chunks(step) {
            let mut c = c;
            while !c.is_empty() {
                match f.write(c) {
                    Ok(n) => c = &c[n..],
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => return,
                }
            }
        }
    }
}
fn serve(io: vos::ProcIo, sc: &Value, w: &W) {
    let me = w.with(|w| {
        w.servers.push(Server::default());
        w.servers.len() - 1
    });
    let pid = io.pid;
    let s = &sc["server"];
    let out = Arc::new(Out { f: Mutex::new(io.stdout), k: Shared1::new(0), style: s["style"].as_u64().unwrap() });
    let later = |ms: u64, m: Value, n: Option<usize>| {
        let (out, w) = (out.clone(), w.clone());
        let go = move || {
            let dead = w.with(|w| {
                if let Some(n) = n {
                    w.asked[n].sent = !w.servers[me].ended;
                }
                w.servers[me].ended
            });
            if !dead {
                out.send(&[m]);
            }
        };
        if ms == 0 {
            go();
        } else {
            spawn(pid, "answer", move || {
                sleep(ms * MS);
                go();
            });
        }
    };
    let mut stdin = io.stdin;
    let mut left = s["exit_after"].as_u64().unwrap_or(u64::MAX);
    while let Some(m) = read_frame(&mut stdin) {
        if left == 0 {
            break;
        }
        left -= 1;
        let method = m["method"].as_str().unwrap_or("").to_string();
        let p = &m["params"];
        slog!("server {} <- {}", me, short(&m.to_string()));
        note("messages to servers", 1);
        if m["jsonrpc"] != "2.0" {
            violation!("framing", "not a message: {}", m);
        }
        if let Some(id) = m["id"].as_i64() {
            if !w.with(|w| w.servers[me].ids.insert(id)) {
                violation!("id-twice", "the server is sent a second request with the id {}: {}", id, m);
            }
        }
        if (method == "initialize") == w.with(|w| w.servers[me].initialized) {
            violation!("initialize", "server {} is {}: {}", me, if method == "initialize" { "initialized twice" } else { "used before it is initialized" }, short(&m.to_string()));
        }
        let uri = p["textDocument"]["uri"].as_str().unwrap_or("").to_string();
        let doc = w.with(|w| w.servers[me].docs.get(&uri).cloned());
        if method.starts_with("textDocument/") && (method == "textDocument/didOpen") == doc.is_some() {
            violation!("open-close", "{} for a document that is {}: {}", method, if doc.is_some() { "open" } else { "not open" }, uri);
        }
        match method.as_str() {
            "initialize" => {
                w.with(|w| w.servers[me].initialized = true);
                let a = if s["init_error"] == true { json!({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -32603, "message": "no"}}) } else { json!({"jsonrpc": "2.0", "id": m["id"], "result": {"capabilities": s["capabilities"]}}) };
                later(s["init_ms"].as_u64().unwrap(), a, None);
            }
            "textDocument/didOpen" => {
                let d = &p["textDocument"];
                w.with(|w| {
                    *w.servers[me].opened.entry(uri.clone()).or_default() += 1;
                    w.servers[me].docs.insert(uri.clone(), (d["version"].as_u64().unwrap(), d["text"].as_str().unwrap().into()))
                });
            }
            "textDocument/didClose" => {
                w.with(|w| w.servers[me].docs.remove(&uri));
            }
            "textDocument/didChange" => {
                if s["capabilities"]["textDocumentSync"] == 0 {
                    violation!("unasked", "the server does not want to be told about changes: {}", m);
                }
                let (v, mut t) = doc.unwrap();
                let v2 = p["textDocument"]["version"].as_u64().unwrap();
                if v2 <= v {
                    violation!("version", "{} has version {} and is changed to version {}", uri, v, v2);
                }
                for c in p["contentChanges"].as_array().unwrap() {
                    let x = c["text"].as_str().unwrap();
                    if c["range"].is_null() {
                        t = x.into();
                        continue;
                    }
                    note("incremental changes", 1);
                    if s["capabilities"]["textDocumentSync"] != 2 {
                        violation!("unasked", "the server has not asked for incremental changes: {}", m);
                    }
                    let (a, b) = (offset(&t, &c["range"]["start"], "change"), offset(&t, &c["range"]["end"], "change"));
                    if a > b {
                        violation!("bad-position", "the range of a change ends before it begins: {}", c);
                    }
                    t.replace_range(a..b, x);
                }
                w.with(|w| w.servers[me].docs.insert(uri.clone(), (v2, t)));
            }
            "textDocument/hover" => {
                let pos = (p["position"]["line"].as_u64().unwrap(), p["position"]["character"].as_u64().unwrap());
                let as_ = &s["answers"][w.with(|w| w.asked.len()) % s["answers"].as_array().unwrap().len()];
                let n = w.with(|w| {
                    w.asked.push(Asked { uri: uri.clone(), pos, ok: as_["as"] == "ok" || as_["as"] == "list", sent: false });
                    w.asked.len() - 1
                });
                let c = format!("answer {} é", n);
                let a = match as_["as"].as_str().unwrap() {
                    "ok" => json!({"contents": {"kind": "markdown", "value": c}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}}),
                    "list" => json!({ "contents": [c] }),
                    "null" => Value::Null,
                    _ => json!({"contents": []}),
                };
                let a = if as_["as"] == "error" { json!({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -32602, "message": "no"}}) } else { json!({"jsonrpc": "2.0", "id": m["id"], "result": a}) };
                later(as_["ms"].as_u64().unwrap(), a, Some(n));
                note("requests", 1);
            }
            _ => {}
        }
        if let Some(x) = s["says"].as_array().and_then(|s| s.get(w.with(|w| w.servers[me].ids.len()))) {
            if !x.is_null() {
                later(0, x.clone(), None);
            }
        }
    }
    w.with(|w| w.servers[me].ended = true);
    slog!("server {} ends", me);
}
fn gen(r: &mut Rng, th: bool) -> Value {
    let nd = r.range(1, 3);
    let rust = r.below(2) == 0;
    let ext = if rust { "rs" } else { "js" };
    let docs: Vec<Value> = (0..nd)
        .map(|i| {
            let dir = *r.pick(&["/w", "/w", "/w/ws", "/w/ws/é dir", "/w/wt"]);
            let e = if r.below(8) == 0 { "txt" } else { ext };
            json!({"path": format!("{}/d{}.{}", dir, i, e), "text": if r.below(4) == 0 { String::new() } else { gen_text(r, 12) }})
        })
        .collect();
    let sync = *r.pick(&[0u64, 1, 1, 2, 2, 2, 2]);
    let cap = match r.below(8) {
        0 => json!({}),
        1 => json!({"textDocumentSync": {"openClose": true, "change": sync}}),
        _ => json!({"textDocumentSync": sync, "hoverProvider": true}),
    };
    let slow = r.below(2) == 0;
    let answers: Vec<Value> = (0..r.range(1, 7)).map(|_| json!({"as": *r.pick(&["ok", "ok", "ok", "list", "null", "empty", "error"]), "ms": if slow { *r.pick(&[0u64, 1, 10, 40, 200]) } else { 0 }})).collect();
    let says: Vec<Value> = (0..8)
        .map(|_| match r.below(6) {
            0 => json!({"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 3, "message": "é"}}),
            1 => json!({"jsonrpc": "2.0", "method": "textDocument/publishDiagnostics", "params": {"uri": "file:///w/d0", "diagnostics": []}}),
            2 => json!({"jsonrpc": "2.0", "method": "window/progress", "params": {"id": *r.pick(&["p", "q"]), "title": "t", "percentage": 0.5, "done": r.below(2) == 0}}),
            3 => json!({"jsonrpc": "2.0", "id": 1, "method": "workspace/configuration", "params": {"items": []}}),
            _ => Value::Null,
        })
        .collect();
    let n = r.range(2, if th { 60 } else { 26 });
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let v = r.below(nd);
            match r.below(24) {
                0 | 1 => json!({"k": "settle"}),
                2 => json!({"k": "pause", "ms": *r.pick(&[1u64, 10, 60])}),
                3 => json!({"k": if r.below(2) == 0 { "close" } else { "save" }, "v": v}),
                4 => json!({"k": "open", "v": v}),
                5..=8 => json!({"k": "hover", "v": v, "at": r.below(1001)}),
                9..=11 => json!({"k": "cmd", "v": v, "m": *r.pick(&["delete_backward", "delete_forward", "delete_word_backward", "delete_to_end_of_paragraph", "insert_newline"]), "p": []}),
                12..=14 => json!({"k": "cmd", "v": v, "m": "gesture", "p": {"line": r.below(8), "col": r.below(12), "ty": *r.pick(&["point_select", "range_select", "range_select", "word_select"])}}),
                15 | 16 => json!({"k": "cmd", "v": v, "m": "insert", "p": {"chars": *r.pick(&["a", "é\n", "👍", "\n\n", "x\ny"])}}),
                _ => {
                    let (m, p) = gen_cmd(r, 12);
                    json!({"k": "cmd", "v": v, "m": m, "p": p})
                }
            }
        })
        .collect();
    json!({
        "docs": docs,
        "late": r.below(2) == 0,
        "rust": rust,
        "single": r.below(6) > 0,
        "root": r.below(2) == 0,
        "chunk": *r.pick(&[0u64, 0, 16, 100]),
        "server": {
            "capabilities": cap, "init_ms": *r.pick(&[0u64, 0, 5, 60, 400]), "init_error": r.below(14) == 0,
            "answers": answers, "says": says, "style": r.below(30), "exit_after": if r.below(10) == 0 { json!(r.below(12)) } else { Value::Null },
        },
        "ops": ops,
    })
}
struct V {
    id: String,
    path: String,
}
fn run(sc: &Value) {
    for d in ["/w", "/w/ws", "/w/ws/é dir", "/w/wt", "/cfg/plugins/lsp"] {
        vos::h_mkdirs(d);
    }
    vos::h_write("/w/ws/root.toml", b"");
    vos::h_write("/w/wt/root.toml", b"");
    xi_plugin_lib::sim::CHUNK_SIZE.store(sc["chunk"].as_u64().unwrap() as usize, SeqCst);
    let docs = sc["docs"].as_array().unwrap();
    for d in docs {
        vos::h_write(d["path"].as_str().unwrap(), d["text"].as_str().unwrap().as_bytes());
    }
    let w: W = Arc::new(Shared1::new(World::default()));
    vos::h_write("/cfg/server", b"#!");
    let (w2, sc2) = (w.clone(), sc.clone());
    vos::register_program("/cfg/server", Arc::new(move |io| serve(io, &sc2, &w2)));
    let (lang, ext) = if sc["rust"] == true { ("rust", "rs") } else { ("javascript", "js") };
    let conf = json!({"language_config": {lang: {
        "language_name": lang, "start_command": "/cfg/server", "start_arguments": [], "extensions": [ext],
        "supports_single_file": sc["single"], "workspace_identifier": if sc["root"] == true { json!("root.toml") } else { Value::Null },
    }}});
    vos::h_write("/cfg/plugins/lsp/run", b"#!");
    vos::h_write("/cfg/plugins/lsp/manifest.toml", b"name = \"lsp\"\nversion = \"0.1\"\nscope = \"global\"\nexec_path = \"./run\"\nactivations = [\"autorun\"]\n");
    vos::register_program(
        "/cfg/plugins/lsp/run",
        Arc::new(move |io| {
            let mut p = xi_lsp_lib::LspPlugin::new(serde_json::from_value(conf.clone()).unwrap());
            let stdin = io.stdin;
            let end = xi_plugin_lib::sim::mainloop_with(&mut p, || std::io::BufReader::new(stdin), io.stdout);
            slog!("the plugin ended: {:?}", end.map_err(|e| e.to_string()));
        }),
    );
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    fe.st.with(|s| s.plugins_around = true);
    let mut views: Vec<Option<V>> = Vec::new();
    let exits = !sc["server"]["exit_after"].is_null();
    let gone = || w.with(|w| w.servers.iter().any(|s| s.ended));
    let panicked = |fe: &Fe| {
        fe.check_alive();
        if let Some(p) = sim().panics.first() {
            if !(exits && gone()) {
                violation!("plugin-panic", "the language plugin panicked: {} at {}", p.msg, p.loc);
            }
        }
    };
    let open = |d: &Value| {
        let p = d["path"].as_str().unwrap().to_string();
        Some(V { id: fe.new_view(Some(&p)), path: p })
    };
    for d in docs {
        views.push(open(d));
    }
    if sc["late"] != true {
        fe.settle();
    }
    // request id -> where it was asked about
    let mut hovers: Vec<(String, String, (u64, u64))> = Vec::new();
    let mut closed: HashMap<String, bool> = HashMap::new();
    for op in sc["ops"].as_array().unwrap() {
        slog!("op {}", op);
        panicked(&fe);
        let v = op["v"].as_u64().map_or(0, |v| v as usize % views.len());
        note("nontrivial", 1);
        match (op["k"].as_str().unwrap(), &views[v]) {
            ("settle", _) => fe.settle(),
            ("pause", _) => sleep(op["ms"].as_u64().unwrap() * MS),
            ("open", None) => views[v] = open(&docs[v]),
            ("close", Some(x)) => {
                fe.notify("close_view", json!({ "view_id": x.id }));
                closed.insert(x.id.clone(), true);
                views[v] = None;
            }
            ("save", Some(x)) => fe.notify("save", json!({"view_id": x.id, "file_path": x.path})),
            ("hover", Some(x)) => {
                let t = fe.contents(&x.id).unwrap();
                let mut at = op["at"].as_u64().unwrap() as usize * (t.len() + 1) / 1001;
                // not inside of what the editor takes for one character
                let b = t.as_bytes();
                while at > 0 && (!b[at - 1].is_ascii() || b[at - 1] == b'\r' || b.get(at).map_or(false, |c| !c.is_ascii())) {
                    at -= 1;
                }
                let line = t[..at].matches('\n').count();
                let start = t[..at].rfind('\n').map_or(0, |i| i + 1);
                fe.edit(&x.id, "request_hover", json!({"request_id": hovers.len(), "position": {"line": line, "column": at - start}}));
                hovers.push((x.id.clone(), x.path.clone(), (line as u64, utf16(&t[start..at]))));
            }
            ("cmd", Some(x)) => {
                let m = op["m"].as_str().unwrap();
                if is_request(m) {
                    let _ = fe.edit_request(&x.id, m, op["p"].clone());
                } else {
                    fe.edit(&x.id, m, op["p"].clone());
                }
            }
            _ => {}
        }
    }
    fe.settle();
    panicked(&fe);
    let served = |x: &V| x.path.ends_with(&format!(".{}", ext)) && (sc["single"] == true || (sc["root"] == true && (x.path.starts_with("/w/ws/") || x.path.starts_with("/w/wt/"))));
    let up = sc["server"]["init_error"] != true && !exits;
    let sync = sc["server"]["capabilities"]["textDocumentSync"].as_u64();
    for x in views.iter().flatten() {
        let copy = || {
            let c: Vec<(u64, String)> = w.with(|w| w.servers.iter().flat_map(|s| s.docs.iter()).filter(|d| path_of(d.0) == x.path).map(|d| d.1.clone()).collect());
            if c.len() > 1 {
                violation!("open-twice", "{} servers have {} open", c.len(), x.path);
            }
            c.into_iter().next().map(|c| c.1)
        };
        if !served(x) || !up {
            if !served(x) && copy().is_some() {
                violation!("not-asked", "a server was given {}, which it does not support", x.path);
            }
            continue;
        }
        let now = || fe.contents(&x.id).unwrap_or_default();
        let same = || match (copy(), sync) {
            (None, _) => false,
            (Some(_), Some(0)) => true,
            (Some(c), _) => c == now(),
        };
        if !eventually_in(20 * SEC, 20 * MS, || same() || !sim().panics.is_empty()) {
            violation!("copy", "{} is {:?} to the server and {:?} in the editor", x.path, copy().map(|c| short(&c)), short(&now()));
        }
        panicked(&fe);
    }
    // whatever is no longer open is closed there too
    if up {
        let extra = || w.with(|w| w.servers.iter().flat_map(|s| s.docs.keys().map(|d| path_of(d)).collect::<Vec<_>>()).filter(|p| !views.iter().flatten().any(|x| x.path == *p)).collect::<Vec<_>>());
        if !eventually_in(20 * SEC, 20 * MS, || extra().is_empty()) {
            violation!("not-closed", "the server still has {:?} open", extra());
        }
    }
    // every answer belongs to its request
    let answers = || fe.st.with(|s| s.hovers.iter().cloned().zip(s.hover_views.iter().cloned()).collect::<Vec<_>>());
    let asked = || w.with(|w| w.asked.clone());
    let number = |c: &Value| c.as_str().and_then(|c| c.strip_prefix("answer ")).and_then(|c| c.strip_suffix(" é")).and_then(|n| n.parse::<usize>().ok());
    let missing = || {
        let got: BTreeSet<usize> = answers().iter().filter_map(|a| number(&a.0 .1)).collect();
        asked().iter().enumerate().filter(|(n, a)| a.ok && a.sent && !got.contains(n) && hovers.iter().all(|h| h.1 != path_of(&a.uri) || !closed.contains_key(&h.0))).map(|a| a.0).collect::<Vec<_>>()
    };
    if up && !eventually_in(20 * SEC, 20 * MS, || missing().is_empty() && asked().iter().all(|a| a.sent)) {
        violation!("answer-lost", "the answers {:?} of the servers did not reach the front-end", missing());
    }
    fe.settle();
    let (mut used, mut ids) = (BTreeSet::new(), BTreeSet::new());
    for ((id, c), v) in answers() {
        let h = match hovers.get(id as usize) {
            Some(h) => h,
            None => violation!("answer-wrong", "nobody asked for {} ({})", id, c),
        };
        let n = match number(&c) {
            Some(n) if n < asked().len() => n,
            _ => violation!("answer-wrong", "request {} is answered with {}, which no server said", id, c),
        };
        let a = asked()[n].clone();
        if !used.insert(n) || !ids.insert(id) {
            violation!("answer-twice", "request {} is answered with {}, and one of them has already been used", id, c);
        }
        if path_of(&a.uri) != h.1 || a.pos != h.2 || v != h.0 {
            violation!("answer-wrong", "request {} about {:?} of {} ({}) was given the answer to a question about {:?} of {}, in {}", id, h.2, h.1, h.0, a.pos, a.uri, v);
        }
        note("answers", 1);
    }
    // what was asked is what was meant
    for a in asked() {
        if !hovers.iter().any(|h| h.1 == path_of(&a.uri) && h.2 == a.pos) {
            violation!("asked-wrong", "a server was asked about {:?} of {} and the user about {:?}", a.pos, a.uri, hovers);
        }
    }
    panicked(&fe);
    sig(crate::driver::hash(format!("{:?}", w.with(|w| w.servers.iter().map(|s| s.docs.clone()).collect::<Vec<_>>())).as_bytes()));
}
pub const C25: Prop = Prop {
    id: "C25",
    gen,
    run,
    rule: "a run counts when the user did something in a document",
    real: &["xi-lsp-lib (plugin, client, framing, conversion of positions)", "xi-plugin-lib", "xi-core-lib (whole core)", "xi-rpc", "xi-rope", "std threads, locks and processes"],
    stub: &["kernel: scheduler, futex, clock, pipes, processes, file system, inotify (virtual)", "front-end and language servers (simulated)"],
    assumptions: &["the language servers follow the protocol (no answer to a request that was not made)", "a file is open in one view at a time", "lines end with \\n, which servers count as a character of the line when they are told to delete it"],
};
