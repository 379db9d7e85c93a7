//! C09: what a plugin reads through the real plugin library is the document at the revision it was last told about.
use super::edit::*;
use crate::driver::Prop;
use crate::fe::*;
use crate::plug::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use xi_core_lib::plugin_rpc::DataSpan;
use xi_core_lib::{ConfigTable, ViewId};
use xi_plugin_lib::{Cache, ChunkCache, Error, Plugin, StateCache, View};
use xi_rope::RopeDelta;

/// What the plugins saw: (plugin, view, revision, text).
type Seen = Arc<Shared1<Vec<(String, String, u64, String)>>>;
struct Shared {
    seen: Seen,
    gone: Shared1<HashSet<String>>,
    /// The user has started to edit.
    touched: Shared1<bool>,
    texts: HashMap<String, String>,
    done: Shared1<HashMap<String, u64>>,
}
struct Reader<C> {
    name: String,
    reads: Vec<Value>,
    at: usize,
    per: u64,
    idle: u64,
    coarse: bool,
    late: bool,
    /// How many more edits it makes (each causes an update, which causes reads).
    edits: u64,
    /// The text of every view, by the deltas of the updates.
    text: HashMap<ViewId, Option<String>>,
    sh: Arc<Shared>,
    more: fn(&mut Reader<C>, &mut View<C>) -> bool,
}
fn vid(v: ViewId) -> String {
    format!("{}", v)
}
fn lines_of(t: &str) -> Vec<&str> {
    let mut l: Vec<&str> = t.split_inclusive('\n').collect();
    if t.is_empty() || t.ends_with('\n') {
        l.push("");
    }
    l
}
fn start_of(t: &str, line: usize) -> usize {
    lines_of(t)[..line].iter().map(|l| l.len()).sum()
}
fn boundary(t: &str, mut at: usize) -> usize {
    at = at.min(t.len());
    while !t.is_char_boundary(at) {
        at -= 1;
    }
    at
}
impl<C: Cache> Reader<C> {
    /// A failed read is fine only if the view is gone.
    fn failed(&self, v: ViewId, what: &str, e: Error) -> bool {
        if self.sh.gone.with(|g| g.contains(&vid(v))) {
            return true;
        }
        violation!("read-failed", "{}: reading {} of {} failed: {:?}", self.name, what, vid(v), e);
    }
    fn read(&mut self, view: &mut View<C>, op: &Value) {
        let v = view.get_id();
        let rev = view.rev;
        let known = self.text.get(&v).cloned().flatten();
        let f = op["at"].as_u64().unwrap_or(0);
        let name = self.name.clone();
        note("nontrivial", 1);
        let t = match (&known, op["r"].as_str().unwrap()) {
            (None, _) | (_, "doc") => match view.get_document() {
                Ok(s) => {
                    if known.map_or(false, |t| t != s) {
                        violation!("read-document", "{}: the document of {} at revision {} was read as {}", name, vid(v), rev, short(&s));
                    }
                    slog!("{} read all of {} at {}", name, vid(v), rev);
                    self.text.insert(v, Some(s));
                    return;
                }
                Err(e) => {
                    self.failed(v, "the document", e);
                    return;
                }
            },
            (Some(t), _) => t.clone(),
        };
        let ls = lines_of(&t);
        if view.get_buf_size() != t.len() {
            violation!("buf-size", "{}: {} is said to have {} bytes at revision {} and has {}", name, vid(v), view.get_buf_size(), rev, t.len());
        }
        let pick = |n: usize| (f as usize * (n + 1) / 1001).min(n);
        match op["r"].as_str().unwrap() {
            "line" => {
                let l = pick(ls.len());
                match view.get_line(l) {
                    Ok(s) if l < ls.len() => {
                        if s != ls[l] {
                            let s = s.to_string();
                            violation!("read-line", "{}: line {} of {} at revision {} is {} and was read as {}", name, l, vid(v), rev, short(ls[l]), short(&s));
                        }
                    }
                    Ok(_) => violation!("read-line", "{}: line {} of {} at revision {} was read, but there are {}", name, l, vid(v), rev, ls.len()),
                    Err(Error::BadRequest) if l >= ls.len() => {}
                    Err(e) => {
                        self.failed(v, &format!("line {}", l), e);
                    }
                }
            }
            "region" => {
                let a = boundary(&t, pick(t.len()));
                let b = boundary(&t, a + op["len"].as_u64().unwrap() as usize);
                let r = if op["to_end"] == true && b == t.len() { view.get_region(a..) } else { view.get_region(a..b) };
                match r {
                    Ok(s) => {
                        if s != &t[a..b] {
                            let s = s.to_string();
                            violation!("read-region", "{}: {}..{} of {} at revision {} is {} and was read as {}", name, a, b, vid(v), rev, short(&t[a..b]), short(&s));
                        }
                    }
                    Err(e) => {
                        self.failed(v, &format!("region {}..{}", a, b), e);
                    }
                }
            }
            "offset" => {
                let l = pick(ls.len() + 1);
                let want = if l < ls.len() { start_of(&t, l) } else { t.len() };
                match view.offset_of_line(l) {
                    Ok(o) => {
                        if o != want || l > ls.len() {
                            violation!("offset-of-line", "{}: line {} of {} at revision {} starts at {} and not at {}", name, l, vid(v), rev, want, o);
                        }
                    }
                    Err(Error::BadRequest) if l > ls.len() => {}
                    Err(e) => {
                        self.failed(v, &format!("offset of line {}", l), e);
                    }
                }
            }
            "number" => {
                let o = if f > 995 { t.len() + 1 } else { boundary(&t, pick(t.len())) };
                match view.line_of_offset(o) {
                    Ok(l) => {
                        let want = t.get(..o).map(|s| s.matches('\n').count());
                        if want != Some(l) {
                            violation!("line-of-offset", "{}: offset {} of {} at revision {} is in line {:?} and not {}", name, o, vid(v), rev, want, l);
                        }
                    }
                    Err(Error::BadRequest) if o > t.len() => {}
                    Err(e) => {
                        self.failed(v, &format!("line of offset {}", o), e);
                    }
                }
            }
            "edit" => {
                if self.edits > 0 {
                    self.edits -= 1;
                    let a = boundary(&t, pick(t.len()));
                    let b = boundary(&t, a + op["len"].as_u64().unwrap() as usize);
                    let d = RopeDelta::simple_edit(a..b, op["ins"].as_str().unwrap().into(), t.len());
                    view.edit(d, 100, op["after"] == true, op["group"] == true, "reader".to_string());
                }
            }
            "style" => {
                let n = boundary(&t, t.len().min(5));
                let span = DataSpan { start: 0, end: n, data: json!(1) };
                view.update_annotations(0, n, &[span], &xi_core_lib::annotations::AnnotationType::Other("read".into()));
            }
            _ => {}
        }
    }
    fn reads(&mut self, view: &mut View<C>, n: u64) {
        for _ in 0..n {
            if self.reads.is_empty() {
                return;
            }
            let op = self.reads[self.at % self.reads.len()].clone();
            self.at += 1;
            self.read(view, &op);
        }
    }
    fn see(&mut self, view: &View<C>) {
        let v = view.get_id();
        let k = format!("{} {}", self.name, vid(v));
        self.sh.done.with(|d| d.insert(k, view.rev));
        if let Some(Some(t)) = self.text.get(&v) {
            let t = t.clone();
            let n = self.name.clone();
            self.sh.seen.with(|s| s.push((n, vid(v), view.rev, t)));
        }
    }
    fn rest(&mut self, view: &mut View<C>) {
        let idle = self.idle;
        self.reads(view, idle);
        let more = self.more;
        if more(self, view) {
            view.schedule_idle();
        }
    }
}
impl<C: Cache> Plugin for Reader<C> {
    type Cache = C;
    fn update(&mut self, view: &mut View<C>, delta: Option<&RopeDelta>, _edit_type: String, _author: String) {
        let v = view.get_id();
        slog!("{} update {} to {}", self.name, vid(v), view.rev);
        let t = match (self.text.remove(&v).flatten(), delta) {
            (Some(t), Some(d)) => Some(String::from(d.apply(&t.into()))),
            _ => None,
        };
        self.text.insert(v, t);
        self.see(view);
        let n = self.per;
        self.reads(view, n);
        if self.text[&v].is_none() && self.per > 0 {
            self.see(view);
        }
        view.schedule_idle();
    }
    fn did_save(&mut self, _: &mut View<C>, _: Option<&std::path::Path>) {}
    fn did_close(&mut self, view: &View<C>) {
        self.text.remove(&view.get_id());
    }
    fn new_view(&mut self, view: &mut View<C>) {
        let v = view.get_id();
        slog!("{} new_view {} at {}", self.name, vid(v), view.rev);
        let t = view.get_path().and_then(|p| self.sh.texts.get(p.to_str().unwrap())).cloned().filter(|_| !self.late && !self.sh.touched.with(|t| *t));
        self.text.insert(v, t);
        let n = self.per;
        self.reads(view, n);
        self.see(view);
        let more = self.more;
        more(self, view);
        view.schedule_idle();
    }
    fn config_changed(&mut self, view: &mut View<C>, _: &ConfigTable) {
        self.reads(view, 1);
    }
    fn idle(&mut self, view: &mut View<C>) {
        self.rest(view);
    }
}
/// The state at the start of the next line.
fn step(coarse: bool, state: u64, line: &str) -> u64 {
    if coarse {
        (state + line.matches(|c| c == 'a' || c == '{').count() as u64) % 2
    } else {
        let mut h = state.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for b in line.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(7);
        }
        h
    }
}
type SView = View<StateCache<u64>>;
/// The way the syntax highlighter uses the state cache, several lines at a time. True while there is more to do.
fn frontier(r: &mut Reader<StateCache<u64>>, view: &mut SView) -> bool {
    let v = view.get_id();
    if view.get_cache().find_offset(0).is_err() && view.get_frontier().is_none() && view.get(1).is_none() {
        view.reset();
    }
    for round in 0..40 {
        let line = match view.get_frontier() {
            Some(l) => l,
            None => break,
        };
        let (line, offset, state) = view.get_prev(line);
        let coarse = r.coarse;
        if let Some(Some(t)) = r.text.get(&v).filter(|_| round % 8 == 0) {
            let ls = lines_of(t);
            let at = ls[..line.min(ls.len())].iter().map(|l| l.len()).sum::<usize>();
            if line >= ls.len() || at != offset {
                violation!("state-offset", "{}: the state for line {} of {} is kept for offset {} at revision {}, which is {}", r.name, line, vid(v), offset, view.rev, at);
            }
        }
        let next = match view.get_line(line) {
            Ok("") => None,
            Ok(s) if s.ends_with('\n') => Some((step(coarse, state, s), line + 1)),
            Ok(_) => None,
            Err(e) => {
                r.failed(v, &format!("line {} (frontier)", line), e);
                return false;
            }
        };
        match next {
            Some((s, l)) if view.get(l) != Some(&s) => {
                view.set(l, s);
                view.update_frontier(l);
            }
            _ => view.close_frontier(),
        }
    }
    if view.get_frontier().is_some() {
        return true;
    }
    // everything that is kept is what would be computed from the start of the text
    if let Some(Some(t)) = r.text.get(&v) {
        let mut s = 0;
        let mut kept = 0;
        for (i, l) in lines_of(t).iter().enumerate() {
            if let Some(k) = view.get(i) {
                kept += 1;
                if i > 0 && *k != s {
                    violation!("stale-state", "{}: the state kept for line {} of {} at revision {} is not that of the text above, though no work is left", r.name, i, vid(v), view.rev);
                }
            }
            s = step(r.coarse, s, l);
        }
        if kept > 0 {
            note("states", kept);
        }
    }
    false
}
fn gen_doc(r: &mut Rng, th: bool) -> String {
    match r.below(if th { 6 } else { 8 }) {
        0 => String::new(),
        1 => {
            // more lines than the state cache keeps entries
            let n = r.range(900, 2400);
            (0..n).map(|i| r.pick(&["\n", "a\n", "{b\n", "xyz\n", "é\n"]).to_string() + if i % 97 == 0 { "aa\n" } else { "" }).collect()
        }
        2 => {
            let n = r.range(50, 400);
            (0..n).map(|_| gen_line(r) + "\n").collect()
        }
        _ => gen_text(r, 30),
    }
}
fn gen_reads(r: &mut Rng, edits: bool) -> Value {
    let n = r.range(1, 24);
    json!((0..n)
        .map(|_| {
            let at = match r.below(8) {
                0 => 0,
                1 => 1000,
                _ => r.below(1001),
            };
            match r.below(if edits { 12 } else { 11 }) {
                0..=2 => json!({"r": "line", "at": at}),
                3..=5 => json!({"r": "region", "at": at, "len": if r.below(4) == 0 { r.below(5000) } else { r.below(30) }, "to_end": r.below(2) == 0}),
                6 | 7 => json!({"r": "offset", "at": at}),
                8 | 9 => json!({"r": "number", "at": at}),
                10 => json!({"r": *r.pick(&["doc", "style", "doc"]), "at": at}),
                _ => json!({"r": "edit", "at": at, "len": if r.below(2) == 0 { 0 } else { r.below(6) }, "ins": *r.pick(&["", "a", "\n", "é{\n"]), "after": r.below(2) == 0, "group": r.below(2) == 0}),
            }
        })
        .collect::<Vec<_>>())
}
fn gen_c09(r: &mut Rng, th: bool) -> Value {
    let huge = r.below(if th { 40 } else { 80 }) == 0;
    let docs: Vec<String> = (0..if huge { 1 } else { r.range(1, 4) }).map(|_| gen_doc(r, th)).collect();
    let max = docs.iter().map(|d| d.len()).max().unwrap();
    let chunk = match r.below(4) {
        0 => 0,
        1 => r.range(8, 40),
        2 => r.range(16, 300),
        _ => r.range(64, 5000),
    };
    let chunk = if huge { 0 } else if chunk > 0 { chunk.max(max as u64 / 40) } else { 0 };
    let edits = r.below(3) == 0;
    let lib: Vec<Value> = (0..r.range(1, 3))
        .map(|_| json!({"kind": *r.pick(&["chunk", "state"]), "reads": gen_reads(r, edits), "per": r.below(5), "idle": r.below(6), "coarse": r.below(2) == 0, "slow": *r.pick(&[0u64, 0, 0, 2, 20])}))
        .collect();
    let mut n = r.range(5, if th { 90 } else { 50 });
    let mut so = json!({});
    if max > 1500 {
        // a big document in small pieces takes too long
        so = json!({"pc_mean": *r.pick(&[0u32, 5_000, 100_000]), "fault": {"short_read": *r.pick(&[0u32, 3_000]), "short_write": *r.pick(&[0u32, 3_000])}});
        n = n.min(30);
    }
    if huge {
        // a single megabyte, few preemptions
        so = json!({"pc_mean": 0, "preempt": *r.pick(&[0, 100]), "fault": {"short_read": 0, "short_write": 0}});
        n = n.min(12);
    }
    let mut ops = Vec::new();
    for _ in 0..n {
        let v = r.below(docs.len() as u64);
        ops.push(match r.below(24) {
            0 => json!({"k": "settle"}),
            1 => json!({"k": "check"}),
            2 => json!({"k": "pause", "ms": r.below(40)}),
            3 if r.below(3) == 0 => json!({"k": "close", "v": v}),
            3 => json!({"k": "conf", "v": v, "n": r.range(1, 9)}),
            4..=9 => {
                // where in a big document it happens
                let far = *r.pick(&[12, 2500]);
                json!({"k": "cmd", "v": v, "m": "gesture", "p": {"line": r.below(far), "col": r.below(12), "ty": "point_select"}})
            }
            10..=12 => {
                let far = *r.pick(&[12, 2500]);
                let l = r.below(far);
                json!({"k": "cmd", "v": v, "m": "gesture", "p": {"line": l, "col": r.below(12), "ty": {"select": {"granularity": *r.pick(&["point", "word", "line"]), "multi": r.below(3) == 0}}}})
            }
            13 => json!({"k": "cmd", "v": v, "m": "insert", "p": {"chars": *r.pick(&["a", "{", "\n", "aé\nb\n", "\n\n"])}}),
            14 => json!({"k": "cmd", "v": v, "m": *r.pick(&["delete_backward", "delete_forward", "insert_newline", "delete_to_end_of_paragraph", "delete_word_backward"]), "p": []}),
            15..=17 => {
                let (m, p) = gen_edit(r);
                json!({"k": "cmd", "v": v, "m": m, "p": p})
            }
            _ => {
                let (m, p) = gen_cmd(r, 12);
                json!({"k": "cmd", "v": v, "m": m, "p": p})
            }
        });
    }
    if huge {
        let at = r.below(n + 1) as usize;
        ops.insert(at, json!({"k": "huge", "v": 0, "n": r.range(900_000, 1_300_000)}));
    }
    let late = r.below(3) == 0 || edits;
    json!({"docs": docs, "chunk": chunk, "lib": lib, "ops": ops, "late": late, "watch": *r.pick(&["now", "late", "hold"]), "sched_override": so})
}
fn install<C: Cache + 'static>(name: &str, spec: &Value, late: bool, sh: &Arc<Shared>, more: fn(&mut Reader<C>, &mut View<C>) -> bool) {
    let dir = format!("/cfg/plugins/{}", name);
    vos::h_mkdirs(&dir);
    let exe = format!("{}/run", dir);
    vos::h_write(&exe, b"#!");
    vos::h_write(&format!("{}/manifest.toml", dir), format!("name = \"{}\"\nversion = \"0.1\"\nscope = \"global\"\nexec_path = \"./run\"\nactivations = [\"autorun\"]\n", name).as_bytes());
    let (n, spec, sh) = (name.to_string(), spec.clone(), sh.clone());
    vos::register_program(
        &exe,
        Arc::new(move |io| {
            let mut p = Reader::<C> {
                name: n.clone(),
                reads: spec["reads"].as_array().unwrap().clone(),
                at: 0,
                per: spec["per"].as_u64().unwrap(),
                idle: spec["idle"].as_u64().unwrap(),
                coarse: spec["coarse"] == true,
                late,
                edits: 8,
                text: HashMap::new(),
                sh: sh.clone(),
                more,
            };
            let stdin = io.stdin;
            let end = xi_plugin_lib::sim::mainloop_with(&mut p, || std::io::BufReader::new(stdin), io.stdout);
            slog!("{} ended: {:?}", n, end.map_err(|e| e.to_string()));
        }),
    );
}
fn run_c09(sc: &Value) {
    vos::h_mkdirs("/w");
    let docs: Vec<String> = sc["docs"].as_array().unwrap().iter().map(|d| d.as_str().unwrap().to_string()).collect();
    xi_plugin_lib::sim::CHUNK_SIZE.store(sc["chunk"].as_u64().unwrap() as usize, SeqCst);
    let mut texts = HashMap::new();
    for (i, d) in docs.iter().enumerate() {
        let p = format!("/w/d{}", i);
        vos::h_write(&p, d.as_bytes());
        texts.insert(p, d.clone());
    }
    let sh = Arc::new(Shared { seen: Arc::new(Shared1::new(Vec::new())), gone: Shared1::new(HashSet::new()), touched: Shared1::new(false), texts, done: Shared1::new(HashMap::new()) });
    let plugs = Plugs::new();
    let mut w = Spec::new("watch0");
    w.ack = match sc["watch"].as_str().unwrap() {
        "now" => Ack::Now,
        "hold" => Ack::Hold,
        _ => Ack::After(7 * MS),
    };
    plugs.install("/cfg", w);
    for (i, l) in sc["lib"].as_array().unwrap().iter().enumerate() {
        if l["kind"] == "chunk" {
            install::<ChunkCache>(&format!("lib{}", i), l, sc["late"] == true, &sh, |_, _| false);
        } else {
            install::<StateCache<u64>>(&format!("lib{}", i), l, sc["late"] == true, &sh, frontier);
        }
    }
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    let panicked = |fe: &Fe| {
        fe.check_alive();
        if let Some(p) = sim().panics.first() {
            violation!("plugin-panic", "the plugin library panicked: {} at {}", p.msg, p.loc);
        }
    };
    let mut views = Vec::new();
    for i in 0..docs.len() {
        views.push(Some(fe.new_view(Some(&format!("/w/d{}", i)))));
    }
    if sc["late"] != true {
        fe.settle();
    }
    // the revision of a file that has just been loaded, if the plugin was told about it
    let first = if sc["late"] != true { plugs.get("watch0").and_then(|p| p.view(views[0].as_ref().unwrap())).map_or(0, |v| v.hist[0].0) } else { 0 };
    let mut told = HashSet::new();
    let watch = |told: &mut HashSet<String>, views: &[Option<String>]| {
        if let Some(p) = plugs.get("watch0") {
            for (i, v) in views.iter().enumerate() {
                if let Some(v) = v {
                    if told.contains(v) {
                        continue;
                    }
                    if let Some(pv) = p.view(v) {
                        if sc["late"] != true && pv.hist[0].0 == first {
                            p.know(v, pv.hist[0].0, &docs[i]);
                            told.insert(v.clone());
                        } else if let Some((rev, t)) = p.fetch(v, 100_000) {
                            p.know(v, rev, &t);
                            told.insert(v.clone());
                        }
                    }
                }
            }
        }
    };
    for op in sc["ops"].as_array().unwrap() {
        slog!("op {}", op);
        sh.touched.with(|t| *t = true);
        panicked(&fe);
        let v = op["v"].as_u64().map_or(0, |v| v as usize % views.len());
        match op["k"].as_str().unwrap() {
            "settle" => fe.settle(),
            "check" => {
                fe.settle();
                watch(&mut told, &views);
                check(&fe, &plugs, &sh, sc, &views);
            }
            "pause" => sleep(op["ms"].as_u64().unwrap() * MS),
            "close" => {
                if let Some(id) = views[v].take() {
                    sh.gone.with(|g| g.insert(id.clone()));
                    fe.notify("close_view", json!({ "view_id": id }));
                }
            }
            "conf" => {
                if let Some(id) = &views[v] {
                    fe.notify("modify_user_config", json!({"domain": {"user_override": id}, "changes": {"tab_size": op["n"]}}));
                }
            }
            "huge" => {
                if let Some(id) = &views[v] {
                    let s: String = ("0123456789 abcdefgh".repeat(800) + "\n").chars().cycle().take(op["n"].as_u64().unwrap() as usize).collect();
                    fe.edit(id, "insert", json!({ "chars": s }));
                }
            }
            _ => {
                if let Some(id) = &views[v] {
                    let m = op["m"].as_str().unwrap();
                    if is_request(m) {
                        let _ = fe.edit_request(id, m, op["p"].clone());
                    } else {
                        fe.edit(id, m, op["p"].clone());
                    }
                }
            }
        }
    }
    fe.settle();
    panicked(&fe);
    watch(&mut told, &views);
    check(&fe, &plugs, &sh, sc, &views);
    panicked(&fe);
}
/// After activity has stopped: every plugin has the document, and had each text of its history on the way.
fn check(fe: &Fe, plugs: &Plugs, sh: &Arc<Shared>, sc: &Value, views: &[Option<String>]) {
    eventually_in(60 * SEC, 50 * MS, || plugs.get("watch0").map_or(false, |w| views.iter().flatten().all(|v| w.view(v).is_some())));
    let w = match plugs.get("watch0") {
        Some(w) => w,
        None => violation!("no-plugin", "the watching plugin was not started"),
    };
    w.release();
    fe.settle();
    for v in views.iter().flatten() {
        let now = || fe.contents(v).unwrap_or_default();
        for (i, _) in sc["lib"].as_array().unwrap().iter().enumerate() {
            let n = format!("lib{}", i);
            let k = format!("{} {}", n, v);
            let last = || sh.seen.with(|s| s.iter().rev().find(|x| &x.1 == v && x.0 == n).cloned());
            let rev = || w.view(v).map(|p| p.rev);
            let same = || {
                let r = rev();
                r.is_some() && sh.done.with(|d| d.get(&k).cloned()) == r && last().map_or(true, |x| Some(x.2) != r || x.3 == now())
            };
            if !eventually_in(60 * SEC, 50 * MS, || same() || !sim().panics.is_empty()) {
                let d = sh.done.with(|d| d.get(&k).cloned());
                violation!("final", "{} was last told about revision {:?} of {}, the other plugin about {:?}; it has {:?}, which is {}", n, d, v, rev(), last().map(|x| short(&x.3)), short(&now()));
            }
        }
        let pv = w.view(v).unwrap();
        for (n, _, rev, t) in sh.seen.with(|s| s.iter().filter(|x| &x.1 == v).cloned().collect::<Vec<_>>()) {
            if let Some((_, Some(h))) = pv.hist.iter().find(|h| h.0 == rev) {
                if *h != t {
                    violation!("history", "{} has {} for {} at revision {}, which was {}", n, short(&t), v, rev, short(h));
                }
            }
        }
        sig(crate::driver::hash(now().as_bytes()));
    }
}
pub const C09: Prop = Prop {
    id: "C09",
    gen: gen_c09,
    run: run_c09,
    rule: "a run counts when a plugin read something through the library",
    real: &["xi-core-lib (whole core)", "xi-plugin-lib (main loop, dispatcher, views, ChunkCache, StateCache)", "xi-rope", "xi-rpc on both ends", "xi-trace", "serde, std threads and locks"],
    stub: &["kernel: scheduler, futex, clock, pipes, processes, file system, inotify (virtual)", "front-end (simulated)", "the code of the plugins above the library (scripted)"],
    assumptions: ASSUME,
};
