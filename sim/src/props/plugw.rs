//! Plugins against the whole core: failing plugins (C11), lifecycle (C12), concurrent edits (C10),
//! styles and annotations (C13).
use crate::driver::Prop;
use crate::fe::*;
use crate::model::{self, Model};
use crate::plug::*;
use crate::props::edit::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};

const STUB: &[&str] = &["kernel: scheduler, futex, clock, pipes, processes, file system, inotify (virtual)", "front-end (simulated: line cache, width measurement)", "plugin processes (scripted)"];

// ------------------------------------------------------------ C11
/// A message that a plugin must not send; "$V", "$P", "$R" and "$O" stand for the view, the plugin's
/// id, the revision it last heard of and the first one it heard of.
fn gen_junk(r: &mut Rng) -> String {
    let num = |r: &mut Rng| *r.pick(&["0", "1", "3", "7", "40", "400", "-1", "1.5", "9223372036854775807", "18446744073709551615", "4294967296", "null", "\"x\"", "[]"]);
    let pos = |r: &mut Rng| *r.pick(&["0", "1", "2", "3", "5", "8", "20", "100", "100000", "18446744073709551615", "18446744073709551600"]);
    let rev = |r: &mut Rng| *r.pick(&["\"$R\"", "\"$R\"", "\"$O\"", "0", "1", "12345678901234567890", "18446744073709551615"]);
    let call = |m: &str, p: String| format!("{{\"method\":\"{}\",\"params\":{{\"view_id\":\"$V\",\"plugin_id\":\"$P\"{}{}}}}}", m, if p.is_empty() { "" } else { "," }, p);
    match r.below(22) {
        0 => (*r.pick(&["", "{", "null", "[]", "{}", "3", "\"x\"", "{\"method\":3}", "{\"method\":\"ping\"}", "{\"id\":1}", "{\"id\":\"a\",\"result\":1}", "{\"id\":-5,\"result\":1}", "{\"method\":\"nosuch\",\"params\":{}}", "{\"method\":\"alert\"}", "{\"method\":\"alert\",\"params\":[]}", "{\"id\":1,\"method\":\"nosuch\",\"params\":{\"view_id\":\"$V\",\"plugin_id\":\"$P\"}}"])).into(),
        1 => "[".repeat(*r.pick(&[10usize, 200, 4000])),
        2 => format!("\u{1}{{\"method\":\"alert\",\"params\":{{\"view_id\":\"$V\",\"plugin_id\""),
        3 | 4 => call("update_spans", format!("\"start\":{},\"len\":{},\"rev\":{},\"spans\":[{}]", pos(r), pos(r), rev(r), gen_spans(r, "scope_id"))),
        5 | 6 => call("update_annotations", format!("\"start\":{},\"len\":{},\"rev\":{},\"annotation_type\":{},\"spans\":[{}]", pos(r), pos(r), rev(r), *r.pick(&["\"find\"", "\"selection\"", "{\"other\":\"x\"}", "{\"other\":\"y\"}", "\"zz\""]), gen_spans(r, "data"))),
        7..=10 => call("edit", format!("\"edit\":{{\"rev\":{},\"delta\":{},\"priority\":{},\"after_cursor\":{},\"undo_group\":{},\"author\":\"bad\"}}", rev(r), gen_bad_delta(r), num(r), r.below(2) == 0, *r.pick(&["null", "0", "1", "77", "18446744073709551615"]))),
        11 => call("add_scopes", format!("\"scopes\":{}", *r.pick(&["[]", "[[]]", "[[\"\"]]", "[[\"a\"]]", "[[\"a b c\"]]", "[[\"comment.line\",\"string\"]]", "[[\"a.b.c.d.e.f.g.h.i.j.k.l.m.n.o.p\"]]", "3"]))),
        12 => call("add_status_item", format!("\"key\":\"k\",\"value\":{},\"alignment\":{}", *r.pick(&["\"v\"", "3"]), *r.pick(&["\"left\"", "\"up\"", "1"]))),
        13 => call(*r.pick(&["update_status_item", "remove_status_item"]), "\"key\":\"nokey\",\"value\":\"v\"".into()),
        14 => call("show_hover", format!("\"request_id\":{},\"result\":{}", num(r), *r.pick(&["{\"Ok\":{\"content\":\"x\",\"range\":null}}", "{\"Ok\":{\"content\":\"x\",\"range\":{\"start\":9,\"end\":2}}}", "{\"Err\":{\"code\":1,\"message\":\"m\"}}", "{\"Err\":3}", "{}"]))),
        15 | 16 => format!("{{\"id\":{},\"method\":\"get_data\",\"params\":{{\"view_id\":\"$V\",\"plugin_id\":\"$P\",\"start\":{},\"unit\":{},\"max_size\":{},\"rev\":{}}}}}", num(r), pos(r), *r.pick(&["\"utf8\"", "\"line\"", "\"x\""]), pos(r), rev(r)),
        17 => format!("{{\"id\":{},\"method\":\"{}\",\"params\":{{\"view_id\":\"{}\",\"plugin_id\":{}}}}}", num(r), *r.pick(&["line_count", "get_selections", "nosuch"]), *r.pick(&["$V", "view-id-99", "view-id-18446744073709551615", "x"]), num(r)),
        18 => format!("{{\"method\":\"{}\",\"params\":{{\"view_id\":\"{}\",\"plugin_id\":{},\"key\":\"k\",\"value\":\"v\",\"alignment\":\"left\",\"scopes\":[[\"a\"]],\"start\":0,\"len\":0,\"spans\":[],\"rev\":\"$R\",\"msg\":\"m\"}}}}", *r.pick(&["add_status_item", "add_scopes", "update_spans", "alert"]), *r.pick(&["$V", "$V", "view-id-99", "view-id-1"]), num(r)),
        19 => format!("{{\"id\":{},{}}}", *r.pick(&["0", "1", "2", "3", "7", "1000"]), *r.pick(&["\"result\":null", "\"result\":\"x\"", "\"error\":{\"code\":1,\"message\":\"m\"}", "\"result\":1,\"error\":2", "\"error\":\"bad\""])),
        20 => call("alert", format!("\"msg\":\"{}\"", "x".repeat(*r.pick(&[0usize, 10, 5000, 70000])))),
        _ => call("alert", "\"msg\":\"fine\"".into()),
    }
}
fn gen_spans(r: &mut Rng, data: &str) -> String {
    let mut v = Vec::new();
    for _ in 0..r.below(4) {
        let a = *r.pick(&[0u64, 1, 2, 5, 9, 30]);
        let b = match r.below(4) {
            0 => a,
            1 => a.saturating_sub(1),
            2 => a + 4,
            _ => *r.pick(&[0u64, 3, 100, 1 << 40]),
        };
        v.push(format!("{{\"start\":{},\"end\":{},\"{}\":{}}}", a, b, data, *r.pick(&["0", "1", "7", "4294967295", "null"])));
    }
    v.join(",")
}
/// A delta no document can take.
fn gen_bad_delta(r: &mut Rng) -> String {
    let ins = "{\"insert\":\"BAD\"}";
    match r.below(8) {
        0 => format!("{{\"els\":[{}],\"base_len\":999999}}", ins),
        1 => "{\"els\":[{\"copy\":[0,999999]}],\"base_len\":\"$L\"}".into(),
        2 => format!("{{\"els\":[{},{{\"copy\":[5,2]}}],\"base_len\":\"$L\"}}", ins),
        3 => format!("{{\"els\":[{{\"copy\":[1,2]}},{},{{\"copy\":[0,1]}}],\"base_len\":\"$L\"}}", ins),
        4 => format!("{{\"els\":[{{\"copy\":[0,2]}},{},{{\"copy\":[1,3]}}],\"base_len\":\"$L\"}}", ins),
        5 => format!("{{\"els\":[{{\"copy\":[18446744073709551615,18446744073709551615]}},{}],\"base_len\":\"$L\"}}", ins),
        6 => (*r.pick(&["{}", "3", "{\"els\":[],\"base_len\":-1}", "{\"els\":[{\"paste\":1}],\"base_len\":0}", "{\"els\":[{\"insert\":3}],\"base_len\":0}"])).into(),
        _ => format!("{{\"els\":[{{\"copy\":[0,\"$M\"]}},{},{{\"copy\":[\"$M\",\"$L\"]}}],\"base_len\":\"$L\"}}", ins),
    }
}
fn fill(p: &Plug, v: &str, s: &str) -> String {
    let w = p.view(v).unwrap_or_default();
    let first = w.hist.first().map_or(0, |h| h.0);
    // the middle of a character, if there is one
    let mid = w.text.as_ref().and_then(|t| (1..t.len()).find(|i| !t.is_char_boundary(*i))).unwrap_or(w.len + 1);
    s.replace("$V", v)
        .replace("\"$P\"", &p.st.with(|s| s.plugin_id.unwrap_or(0)).to_string())
        .replace("\"$R\"", &w.rev.to_string())
        .replace("\"$O\"", &first.to_string())
        .replace("\"$L\"", &w.len.to_string())
        .replace("\"$M\"", &mid.to_string())
}
fn gen_c11(r: &mut Rng, th: bool) -> Value {
    let n = r.range(5, if th { 100 } else { 45 });
    let views = *r.pick(&[1u64, 1, 2]);
    let texts: Vec<String> = (0..views).map(|_| { let k = *r.pick(&[0u64, 3, 8]); gen_text(r, k) }).collect();
    let lines = texts[0].matches('\n').count() as u64;
    let wild = r.below(3);
    let mut ops = Vec::new();
    for _ in 0..n {
        ops.push(match r.below(10) {
            0..=2 if wild > 0 => json!({"k": "junk", "v": r.below(views), "raw": gen_junk(r)}),
            3 => json!({"k": *r.pick(&["kill", "hangup", "freeze", "thaw", "stop", "start", "start", "pause", "pause", "release", "held", "trace", "hover", "reindent"]), "v": r.below(views)}),
            _ => {
                let (m, p) = gen_cmd(r, lines);
                json!({"v": r.below(views), "m": m, "p": p})
            }
        });
    }
    json!({"texts": texts, "ops": ops, "big": r.below(4) == 0, "cap": *r.pick(&[65536u64, 65536, 4096])})
}
fn stopped(fe: &Fe, v: &str, name: &str) -> bool {
    // a plugin that died before a view was set up may never have been mentioned for it
    fe.mirror(v).plugins.get(name) != Some(&true)
}
fn run_c11(sc: &Value) {
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    let mut bad = Spec::new("bad");
    bad.strict = false;
    let mut good = Spec::new("good");
    good.strict = false;
    plugs.install("/cfg", bad);
    plugs.install("/cfg", good);
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    let mut kill = String::new();
    let mut vs: Vec<(String, Model, model::Cfg)> = Vec::new();
    for (i, t) in sc["texts"].as_array().unwrap().iter().enumerate() {
        let t = t.as_str().unwrap();
        let p = format!("/w/f{}", i);
        vos::h_write(&p, t.as_bytes());
        vs.push((fe.new_view(Some(&p)), Model::new(t), model::Cfg::default()));
    }
    fe.settle();
    for x in vs.iter_mut() {
        x.2.apply(&fe.mirror(&x.0).config);
        for p in plugs.all() {
            if let Some(w) = p.view(&x.0) {
                p.know(&x.0, w.rev, &x.1.text);
            }
        }
    }
    let mut hung = false;
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let x = &mut vs[op["v"].as_u64().unwrap() as usize];
        let b = plugs.get("bad");
        slog!("op {}", op);
        if let Some(k) = op["k"].as_str() {
            match (k, b) {
                ("junk", Some(b)) => {
                    b.raw(fill(&b, &x.0, op["raw"].as_str().unwrap()));
                    note("junk", 1);
                }
                ("kill", Some(b)) => {
                    b.kill();
                }
                ("hangup", Some(b)) => {
                    b.hang_up();
                    hung = true;
                }
                ("freeze", Some(b)) => b.st.with(|s| s.frozen = true),
                ("thaw", Some(b)) => b.st.with(|s| s.frozen = false),
                ("release", Some(b)) => {
                    b.release();
                }
                ("held", Some(b)) => b.set_ack(Ack::Hold),
                ("stop", _) => {
                    fe.notify("plugin", json!({"command": "stop", "view_id": x.0, "plugin_name": "bad"}));
                }
                ("start", _) => {
                    hung = false;
                    fe.notify("plugin", json!({"command": "start", "view_id": x.0, "plugin_name": "bad"}));
                    fe.settle();
                }
                ("trace", _) => {
                    fe.notify("tracing_config", json!({"enabled": true}));
                    fe.notify("save_trace", json!({"destination": format!("/w/trace{}", i), "frontend_samples": []}));
                }
                ("hover", _) => fe.edit(&x.0, "request_hover", json!({"request_id": i, "position": null})),
                ("reindent", _) => fe.edit(&x.0, "reindent", json!([])),
                ("pause", _) => sleep(20 * MS),
                _ => {}
            }
            continue;
        }
        let m = op["m"].as_str().unwrap();
        // the reference takes back one group for one undo; what plugins do must not change that
        let want = x.1.cmd(m, &op["p"], &x.2, &mut kill);
        if is_request(m) {
            let got = fe.edit_request(&x.0, m, op["p"].clone());
            if got != Ok(want.clone()) {
                violation!("answer", "op {} {}: answered {:?} instead of {}", i, m, got, want);
            }
        } else {
            fe.edit(&x.0, m, op["p"].clone());
        }
        if sc["big"] == true && i % 5 == 0 {
            // enough to fill the pipe of a plugin that does not read
            let p = json!({"chars": "lorem ipsum ".repeat(1500)});
            fe.edit(&x.0, "insert", p.clone());
            x.1.cmd("insert", &p, &x.2, &mut kill);
        }
        note("nontrivial", 1);
    }
    fe.settle();
    for x in &vs {
        check_text("at the end", &x.0, &fe, &x.1);
    }
    for n in ["bad", "good"] {
        if !eventually_in(30 * SEC, 10 * MS, || plugs.get(n).is_some()) {
            violation!("no-start", "plugin {} is never started", n);
        }
    }
    // the plugin that died is shown as stopped
    let b = plugs.get("bad").unwrap();
    b.st.with(|s| s.frozen = false);
    if b.instance as usize + 1 == plugs.all().iter().filter(|p| p.name == "bad").count() && (b.dead() || hung || b.st.with(|s| s.shutdown || s.ended)) {
        for x in &vs {
            if !eventually_in(30 * SEC, 10 * MS, || stopped(&fe, &x.0, "bad")) {
                violation!("not-stopped", "plugin bad is gone but {} still shows it as {:?}", x.0, fe.mirror(&x.0).plugins.get("bad"));
            }
        }
        note("deaths", 1);
    }
    // the other plugin is unharmed
    let g = plugs.get("good").unwrap();
    if plugs.all().iter().filter(|p| p.name == "good").count() != 1 || g.dead() {
        violation!("other-plugin", "the other plugin was harmed");
    }
    for x in &vs {
        if !eventually_in(30 * SEC, 10 * MS, || g.view(&x.0).map_or(false, |w| w.text.as_deref() == Some(&x.1.text) || w.text.is_none())) {
            let w = g.view(&x.0).unwrap_or_default();
            violation!("other-plugin", "the other plugin's copy of {} is {} and the text is {}", x.0, short(&w.text.unwrap_or_default()), short(&x.1.text));
        }
        let n = g.request("line_count", &x.0, json!({}));
        let want = json!(x.1.text.matches('\n').count() + 1);
        if n != Some(Ok(want.clone())) {
            violation!("other-plugin", "the other plugin asked for the number of lines of {} and got {:?} instead of {}", x.0, n, want);
        }
    }
    // and can be started again
    let runs = || plugs.get("bad").map_or(false, |b| !b.dead() && b.st.with(|s| s.plugin_id.is_some() && !s.shutdown && !s.ended)) && !stopped(&fe, &vs[0].0, "bad");
    if !hung && !runs() {
        // a start is refused while the plugin is still thought to run
        let ok = (0..4).any(|_| {
            fe.notify("plugin", json!({"command": "start", "view_id": vs[0].0, "plugin_name": "bad"}));
            eventually_in(30 * SEC, 10 * MS, runs)
        });
        if !ok {
            violation!("no-restart", "plugin bad cannot be started again");
        }
        note("restarts", 1);
    }
    fe.check_alive();
    fe.shutdown();
}
pub const C11: Prop = Prop {
    id: "C11",
    gen: gen_c11,
    run: run_c11,
    rule: "a run counts when the user performed at least one command while a plugin misbehaved",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------ C12
pub const LANGS: &str = "[[languages]]\nname = \"Rust\"\nextensions = [\"rs\"]\nscope = \"source.rust\"\n[[languages]]\nname = \"Make\"\nextensions = [\"mk\", \"Makefile\"]\nscope = \"source.makefile\"\n";
fn gen_c12(r: &mut Rng, th: bool) -> Value {
    let np = *r.pick(&[1u64, 1, 2, 3]);
    let n = r.range(6, if th { 90 } else { 40 });
    let mut opened = 0u64;
    let mut ops = Vec::new();
    for _ in 0..n {
        let v = r.below(opened.max(1));
        let p = format!("p{}", r.below(np));
        ops.push(match r.below(24) {
            _ if opened == 0 => {
                opened += 1;
                json!({"k": "open", "t": gen_text(r, 4), "f": format!("/w/f0.{}", r.pick(&["rs", "txt", "mk"]))})
            }
            0..=3 => {
                opened += 1;
                let f = if r.below(4) == 0 { Value::Null } else { json!(format!("/w/f{}.{}", opened, r.pick(&["rs", "txt", "mk"]))) };
                json!({"k": "open", "t": gen_text(r, 4), "f": f})
            }
            4 | 5 => json!({"k": "close", "v": v}),
            6 | 7 => json!({"k": "save", "v": v, "f": if r.below(2) == 0 { Value::Null } else { json!(format!("/w/s{}.{}", ops.len(), r.pick(&["rs", "txt", "mk"]))) }}),
            8 => json!({"k": "lang", "v": v, "l": *r.pick(&["Rust", "Make", "Plain Text", "nosuch"])}),
            9 | 10 => json!({"k": "config", "d": *r.pick(&["general", "lang", "view"]), "v": v, "c": gen_conf(r)}),
            11 | 12 => {
                // also in a row, when it has not connected yet or is still ending
                let first = r.below(2);
                for i in 0..*r.pick(&[1u64, 1, 2, 2, 3, 4]) {
                    ops.push(json!({"k": if (i + first) % 2 == 0 { "start" } else { "stop" }, "p": p, "v": v}));
                    if r.below(4) == 0 {
                        ops.push(json!({"k": "wait", "ms": *r.pick(&[0u64, 1, 2, 5])}));
                    }
                }
                continue;
            }
            13 => json!({"k": "kill", "p": p}),
            14 => json!({"k": "release", "p": p}),
            15 => json!({"k": "wait", "ms": *r.pick(&[0u64, 1, 5, 30, 150])}),
            16 => json!({"k": "settle"}),
            17 => json!({"k": "command", "p": p, "v": v}),
            _ => {
                let (m, q) = gen_cmd(r, 4);
                json!({"v": v, "m": m, "p": q})
            }
        });
    }
    let plugs: Vec<Value> = (0..np).map(|i| json!({"n": format!("p{}", i), "ack": *r.pick(&["now", "now", "late", "hold"]), "ms": *r.pick(&[1u64, 10, 100]), "slow": *r.pick(&[0u64, 0, 1, 4])})).collect();
    json!({"ops": ops, "plugs": plugs})
}
struct Opened {
    id: String,
    closed: bool,
    path: Option<String>,
}
fn run_c12(sc: &Value) {
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    for (i, p) in sc["plugs"].as_array().unwrap().iter().enumerate() {
        let mut s = Spec::new(p["n"].as_str().unwrap());
        s.ack = match p["ack"].as_str().unwrap() {
            "now" => Ack::Now,
            "hold" => Ack::Hold,
            _ => Ack::After(p["ms"].as_u64().unwrap() * MS),
        };
        s.slow = p["slow"].as_u64().unwrap() * MS;
        if i == 0 {
            s.languages = LANGS.into();
        }
        plugs.install("/cfg", s);
    }
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    let mut vs: Vec<Opened> = Vec::new();
    // whether a plugin has to run: not known when it was killed, as a start may have come before this was noticed
    let mut wanted: std::collections::BTreeMap<String, Option<bool>> = sc["plugs"].as_array().unwrap().iter().map(|p| (p["n"].as_str().unwrap().to_string(), Some(true))).collect();
    for op in sc["ops"].as_array().unwrap() {
        slog!("op {}", op);
        let v = op["v"].as_u64().and_then(|i| vs.get(i as usize)).map_or("view-id-0".to_string(), |v| v.id.clone());
        let name = op["p"].as_str().unwrap_or("").to_string();
        match op["k"].as_str() {
            Some("open") => {
                let f = op["f"].as_str();
                if let Some(f) = f {
                    vos::h_write(f, op["t"].as_str().unwrap().as_bytes());
                }
                let id = fe.new_view(f);
                if vs.iter().any(|o| o.id == id) {
                    violation!("view-id", "{} was given to two views", id);
                }
                vs.push(Opened { id, closed: false, path: f.map(String::from) });
                note("opens", 1);
            }
            Some("close") => {
                fe.notify("close_view", json!({ "view_id": v }));
                for o in vs.iter_mut().filter(|o| o.id == v) {
                    o.closed = true;
                }
                note("closes", 1);
            }
            Some("save") => {
                if let Some(o) = vs.iter_mut().find(|o| o.id == v && !o.closed) {
                    let f = op["f"].as_str().map(String::from).or(o.path.clone());
                    if let Some(f) = f {
                        fe.notify("save", json!({"view_id": v, "file_path": f}));
                        o.path = Some(f);
                        note("saves", 1);
                    }
                }
            }
            Some("lang") => fe.notify("set_language", json!({"view_id": v, "language_id": op["l"]})),
            Some("config") => {
                let d = match op["d"].as_str().unwrap() {
                    "general" => json!("general"),
                    "lang" => json!({"language": "Rust"}),
                    _ => json!({ "user_override": v }),
                };
                fe.notify("modify_user_config", json!({"domain": d, "changes": op["c"]}));
            }
            Some("start") => {
                fe.notify("plugin", json!({"command": "start", "view_id": v, "plugin_name": name}));
                if wanted[&name] == Some(false) {
                    wanted.insert(name.clone(), Some(true));
                }
            }
            Some("stop") => {
                fe.notify("plugin", json!({"command": "stop", "view_id": v, "plugin_name": name}));
                wanted.insert(name.clone(), Some(false));
            }
            Some("command") => fe.notify("plugin", json!({"command": "plugin_rpc", "view_id": v, "receiver": name, "rpc": {"method": "custom_command", "params": {"x": 1}, "rpc_type": "notification"}})),
            Some("kill") => {
                if let Some(p) = plugs.get(&name) {
                    p.kill();
                }
                if wanted[&name] == Some(true) {
                    wanted.insert(name.clone(), None);
                }
            }
            Some("release") => {
                if let Some(p) = plugs.get(&name) {
                    p.release();
                }
            }
            Some("wait") => sleep(op["ms"].as_u64().unwrap() * MS),
            Some("settle") => fe.settle(),
            _ => {
                let m = op["m"].as_str().unwrap();
                // an edit of a closed view does nothing
                if is_request(m) {
                    let _ = fe.edit_request(&v, m, op["p"].clone());
                } else {
                    fe.edit(&v, m, op["p"].clone());
                }
            }
        }
        note("nontrivial", 1);
    }
    fe.settle();
    // Every plugin that still runs has been told everything.
    let alive = |name: &str| plugs.all().into_iter().filter(|p| p.name == name && !p.dead() && p.st.with(|s| s.plugin_id.is_some() && !s.shutdown && !s.ended)).collect::<Vec<_>>();
    for pl in sc["plugs"].as_array().unwrap() {
        let name = pl["n"].as_str().unwrap();
        let open: Vec<&Opened> = vs.iter().filter(|v| !v.closed).collect();
        // what the front-end is told agrees with what runs
        if let Some(o) = open.first() {
            let ok = eventually_in(30 * SEC, 10 * MS, || fe.mirror(&o.id).plugins.get(name).copied().unwrap_or(false) == !alive(name).is_empty());
            if !ok {
                violation!("shown-running", "plugin {} is shown as running={:?} in {} and {} of its processes run", name, fe.mirror(&o.id).plugins.get(name), o.id, alive(name).len());
            }
            for o in &open {
                if !eventually_in(30 * SEC, 10 * MS, || fe.mirror(&o.id).plugins.get(name).copied().unwrap_or(false) == !alive(name).is_empty()) {
                    violation!("shown-running", "plugin {} is shown as running={:?} in {} and {} of its processes run", name, fe.mirror(&o.id).plugins.get(name), o.id, alive(name).len());
                }
            }
        }
        if let Some(w) = wanted[name] {
            if !eventually_in(30 * SEC, 10 * MS, || alive(name).is_empty() != w) {
                violation!("not-as-told", "{} processes of plugin {} run after it was last told to {}", alive(name).len(), name, if w { "start" } else { "stop" });
            }
        }
        if !eventually_in(30 * SEC, 10 * MS, || alive(name).len() <= 1) {
            violation!("two-instances", "{} processes of plugin {} run at the same time", alive(name).len(), name);
        }
        for p in alive(name) {
            p.release();
            p.set_ack(Ack::Now);
            note("watched", 1);
            // its stop may still be on the way
            let gone = || p.dead() || p.st.with(|s| s.shutdown || s.ended);
            for o in &vs {
                let id = &o.id;
                if o.closed {
                    let ok = eventually_in(30 * SEC, 10 * MS, || gone() || p.view(id).map_or(true, |w| w.begun == w.ended));
                    if !ok || p.view(id).map_or(false, |w| w.ended > 1) {
                        violation!("end-count", "plugin {}/{} was given {} {} times and told of its end {} times", name, p.instance, id, p.view(id).unwrap().begun, p.view(id).unwrap().ended);
                    }
                    continue;
                }
                let text = fe.contents(id).unwrap_or_default();
                let m = fe.mirror(id);
                let diff = || {
                    let w = match p.view(id) {
                        Some(w) => w,
                        None => return "it was never given the view".to_string(),
                    };
                    if w.begun != 1 || w.ended != 0 {
                        return format!("begun {} times, ended {} times", w.begun, w.ended);
                    }
                    if w.len != text.len() || w.lines != text.matches('\n').count() + 1 {
                        return format!("it has {} bytes in {} lines and the document {} in {}", w.len, w.lines, text.len(), text.matches('\n').count() + 1);
                    }
                    if Some(&w.syntax) != m.language.as_ref() {
                        return format!("it has language {:?} and the front-end {:?}", w.syntax, m.language);
                    }
                    if w.path != o.path {
                        return format!("it has path {:?} instead of {:?}", w.path, o.path);
                    }
                    for (k, x) in m.config.as_object().into_iter().flatten() {
                        if k != "plugin_search_path" && w.config[k] != *x && w.config[k].as_f64() != x.as_f64() {
                            return format!("it has {} = {} and the front-end {}", k, w.config[k], x);
                        }
                    }
                    String::new()
                };
                if !eventually_in(30 * SEC, 10 * MS, || gone() || diff().is_empty()) {
                    violation!("stale-plugin", "plugin {}/{} and {}: {}", name, p.instance, id, diff());
                }
                match p.fetch(id, 7) {
                    Some((_, t)) if t == text => {}
                    _ if gone() => {}
                    x => violation!("fetched", "plugin {}/{} reads {} as {:?} instead of {}", name, p.instance, id, x, short(&text)),
                }
            }
        }
    }
    // after a stop there is only the shutdown
    let last = alive("p0");
    fe.notify("plugin", json!({"command": "stop", "view_id": "view-id-1", "plugin_name": "p0"}));
    if let Some(p) = last.first() {
        for o in &vs {
            fe.edit(&o.id, "insert", json!({"chars": "z"}));
        }
        if !eventually_in(30 * SEC, 10 * MS, || p.dead()) {
            violation!("no-shutdown", "plugin p0 was stopped and still runs");
        }
        if !p.st.with(|s| s.shutdown) {
            violation!("no-shutdown", "plugin p0 was stopped without a shutdown message");
        }
        fe.settle();
        for o in vs.iter().filter(|o| !o.closed) {
            if !eventually_in(30 * SEC, 10 * MS, || stopped(&fe, &o.id, "p0")) {
                violation!("shown-running", "plugin p0 was stopped and {} shows {:?}", o.id, fe.mirror(&o.id).plugins.get("p0"));
            }
        }
    }
    fe.check_alive();
    fe.shutdown();
}
pub const C12: Prop = Prop {
    id: "C12",
    gen: gen_c12,
    run: run_c12,
    rule: "a run counts when a message was sent while a plugin was installed",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------ C10
/// Each character that anybody types is one that was never typed before, so that every text shows who
/// wrote what.
struct Fresh(u32);
impl Fresh {
    fn take(&mut self, n: u64) -> String {
        (0..n)
            .map(|_| {
                self.0 += 1;
                // two, three and four bytes
                char::from_u32(match self.0 % 3 {
                    0 => 0x4e00 + self.0,
                    1 if self.0 < 0x300 => 0x0400 + self.0 % 0x100,
                    1 => 0x8200 + self.0,
                    _ => 0x20000 + self.0,
                })
                .unwrap()
            })
            .collect()
    }
}
fn gen_c10(r: &mut Rng, th: bool) -> Value {
    if r.below(4) == 0 {
        return super::replica::gen_forget(r, th);
    }
    let np = *r.pick(&[1u64, 1, 2, 3]);
    let undo = r.below(3) == 0;
    let n = r.range(4, if th { 90 } else { 45 });
    let burst = r.below(2);
    let mut ops = Vec::new();
    for _ in 0..n {
        let p = format!("e{}", r.below(np));
        ops.push(match r.below(20) {
            0..=6 => {
                let mut els = Vec::new();
                let mut at = 0;
                for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
                    at += r.below(7);
                    let del = *r.pick(&[0u64, 0, 1, 3, 20]);
                    els.push(json!([at, at + del, *r.pick(&[0u64, 1, 1, 2, 5])]));
                    at += del;
                }
                json!({"k": "pedit", "n": p, "back": if r.below(2) == 0 { 0 } else { r.below(6) }, "els": els, "prio": *r.pick(&[0u64, 1, 0xffff, 0x10000, 0x10001, 0x20000, 1 << 40]), "group": *r.pick(&["none", "none", "last", "new"])})
            }
            7 => json!({"k": "release", "n": p}),
            8 => json!({"k": "wait", "ms": *r.pick(&[0u64, 1, 5, 30])}),
            9 if burst == 0 => json!({"k": "settle"}),
            10..=13 => json!({"k": "type", "len": *r.pick(&[1u64, 1, 2, 6])}),
            14 => json!({"m": *r.pick(&["delete_backward", "delete_forward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph", "delete_to_beginning_of_line"]), "p": []}),
            15 if undo => json!({"m": *r.pick(&["undo", "undo", "redo"]), "p": []}),
            16 => json!({"m": "insert_newline", "p": []}),
            17 => json!({"m": "gesture", "p": {"line": r.below(3), "col": r.below(60), "ty": *r.pick(&["point_select", "range_select", "word_select"])}}),
            _ => json!({"m": *r.pick(&["move_left", "move_right", "move_left", "move_right", "move_up", "move_down", "move_to_end_of_document", "move_to_beginning_of_document", "move_left_and_modify_selection", "move_right_and_modify_selection", "move_word_left", "select_all"]), "p": []}),
        });
    }
    let plugs: Vec<Value> = (0..np).map(|i| json!({"n": format!("e{}", i), "ack": *r.pick(&["now", "late", "hold", "hold"]), "slow": *r.pick(&[0u64, 0, 2])})).collect();
    json!({"ops": ops, "plugs": plugs, "undo": undo, "len": *r.pick(&[0u64, 3, 12, 40]), "nl": r.below(3)})
}
struct Sent {
    base: u64,
    base_text: String,
    new: String,
    pinned: bool,
    group: String,
    prio: u64,
    gaps: Vec<(Option<char>, Option<char>, String)>,
}
fn atoms(s: &str) -> Vec<char> {
    s.chars().filter(|c| !c.is_ascii()).collect()
}
/// The characters of `a` that are in `b` too come in the same order there.
fn same_order(a: &str, b: &str) -> bool {
    let (x, y) = (atoms(a), atoms(b));
    let (sx, sy): (std::collections::HashSet<char>, std::collections::HashSet<char>) = (x.iter().copied().collect(), y.iter().copied().collect());
    x.iter().filter(|c| sy.contains(c)).eq(y.iter().filter(|c| sx.contains(c)))
}
fn minus(a: &str, b: &str) -> String {
    let y: std::collections::HashSet<char> = atoms(b).into_iter().collect();
    atoms(a).into_iter().filter(|c| !y.contains(c)).collect()
}
fn run_c10(sc: &Value) {
    if sc["kind"] == "forget" {
        return super::replica::run_forget(sc);
    }
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    plugs.install("/cfg", Spec::new("witness"));
    for p in sc["plugs"].as_array().unwrap() {
        let mut s = Spec::new(p["n"].as_str().unwrap());
        s.ack = match p["ack"].as_str().unwrap() {
            "now" => Ack::Now,
            "hold" => Ack::Hold,
            _ => Ack::After(4 * MS),
        };
        s.slow = p["slow"].as_u64().unwrap() * MS;
        plugs.install("/cfg", s);
    }
    let mut fresh = Fresh(0);
    let mut text = fresh.take(sc["len"].as_u64().unwrap());
    for i in 0..sc["nl"].as_u64().unwrap() {
        let at = text.char_indices().nth((i as usize + 1) * 7).map_or(text.len(), |c| c.0);
        text.insert(at, '\n');
    }
    vos::h_write("/w/f", text.as_bytes());
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    let v = fe.new_view(Some("/w/f"));
    fe.settle();
    let np = sc["plugs"].as_array().unwrap().len() + 1;
    if !eventually_in(30 * SEC, 10 * MS, || plugs.all().len() == np && plugs.all().iter().all(|p| p.view(&v).is_some())) {
        violation!("no-start", "not every plugin was given the view");
    }
    for p in plugs.all() {
        p.know(&v, p.view(&v).unwrap().rev, &text);
    }
    let wit = plugs.get("witness").unwrap();
    let mut sent: std::collections::BTreeMap<u64, Vec<Sent>> = Default::default();
    let mut released: std::collections::HashSet<String> = Default::default();
    let mut typed = String::new();
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {}", op);
        let name = op["n"].as_str().unwrap_or("");
        match op["k"].as_str() {
            Some("pedit") => {
                let p = plugs.get(name).unwrap();
                let w = p.view(&v).unwrap();
                let h = &w.hist[w.hist.len() - 1 - (op["back"].as_u64().unwrap() as usize).min(w.hist.len() - 1)];
                let base = match &h.1 {
                    Some(t) => t.clone(),
                    None => continue,
                };
                let cs: Vec<usize> = base.char_indices().map(|c| c.0).chain(Some(base.len())).collect();
                let n = cs.len() - 1;
                let (mut els, mut new, mut at) = (Vec::new(), String::new(), 0);
                let mut gaps = Vec::new();
                for e in op["els"].as_array().unwrap() {
                    let (a, b) = ((e[0].as_u64().unwrap() as usize).min(n), (e[1].as_u64().unwrap() as usize).min(n));
                    if a < at || (a == at && !els.is_empty()) {
                        continue;
                    }
                    if a > at {
                        els.push(json!({"copy": [cs[at], cs[a]]}));
                        new.push_str(&base[cs[at]..cs[a]]);
                    }
                    let ins = fresh.take(e[2].as_u64().unwrap());
                    if !ins.is_empty() {
                        els.push(json!({ "insert": ins }));
                        new.push_str(&ins);
                        if a == b {
                            gaps.push((base[..cs[a]].chars().last(), base[cs[a]..].chars().next(), ins));
                        }
                    }
                    at = b;
                }
                if at < n {
                    els.push(json!({"copy": [cs[at], cs[n]]}));
                    new.push_str(&base[cs[at]..]);
                }
                let group = op["group"].as_str().unwrap();
                let g = match group {
                    "last" => w.groups.last().map_or(Value::Null, |g| json!(g)),
                    "new" => json!(1_000_000 + i),
                    _ => Value::Null,
                };
                slog!("edit of {} on rev {} in group {}: {}", name, h.0, g, new);
                p.notify("edit", &v, json!({"edit": {"rev": h.0, "delta": {"els": els, "base_len": base.len()}, "priority": op["prio"], "after_cursor": true, "undo_group": g, "author": name}}));
                let hold = sc["plugs"].as_array().unwrap().iter().any(|q| q["n"] == name && q["ack"] == "hold") && !released.contains(name);
                // while it owes an answer to the first update after that revision, nothing is forgotten
                let pinned = hold && p.st.with(|s| s.views[&v].hist.len() > 1);
                let id = p.st.with(|s| s.plugin_id.unwrap());
                sent.entry(id).or_default().push(Sent { base: h.0, base_text: base.clone(), new, pinned, group: group.into(), prio: op["prio"].as_u64().unwrap(), gaps });
                note("plugin_edits", 1);
                note("nontrivial", 1);
            }
            Some("release") => {
                let p = plugs.get(name).unwrap();
                // an acknowledgement may overtake edits sent before it, so they are handled first
                if p.request("line_count", &v, json!({})).is_none() {
                    violation!("no-answer", "plugin {} gets no answer", p.name);
                }
                p.release();
                released.insert(name.into());
            }
            Some("wait") => sleep(op["ms"].as_u64().unwrap() * MS),
            Some("settle") => fe.settle(),
            Some("type") => {
                let s = fresh.take(op["len"].as_u64().unwrap());
                fe.edit(&v, "insert", json!({ "chars": s }));
                typed.push_str(&s);
            }
            _ => fe.edit(&v, op["m"].as_str().unwrap(), op["p"].clone()),
        }
    }
    fe.settle();
    // what they have sent has been handled when the answer comes
    for p in plugs.all() {
        if p.request("line_count", &v, json!({})).is_none() {
            violation!("no-answer", "plugin {} gets no answer", p.name);
        }
    }
    for p in plugs.all() {
        p.release();
        p.set_ack(Ack::Now);
    }
    fe.settle();
    let end = fe.contents(&v).unwrap();
    // every observer has the same text
    for p in plugs.all() {
        if !eventually_in(30 * SEC, 10 * MS, || p.view(&v).map_or(false, |w| w.text.as_deref() == Some(&end))) {
            violation!("observers", "plugin {} has {} and the document is {}", p.name, short(&p.view(&v).unwrap().text.unwrap_or_default()), short(&end));
        }
    }
    check_mirror("at the end", &v, &fe.mirror(&v), &end, None);
    fe.notify("save", json!({"view_id": v, "file_path": "/w/out"}));
    fe.settle();
    let saved = String::from_utf8(vos::h_read("/w/out").unwrap_or_default()).unwrap_or_default();
    if saved.trim_end_matches('\n') != end.trim_end_matches('\n') {
        violation!("observers", "{} was saved and the document is {}", short(&saved), short(&end));
    }
    // the history, step by step, as the witness saw it
    let w = wit.view(&v).unwrap();
    let ups: Vec<Value> = wit.st.with(|s| s.log.iter().filter(|l| l.1 == "update").map(|l| l.2.clone()).collect());
    let total = ups.len();
    let rev_at = |rev: u64| w.hist.iter().position(|h| h.0 == rev);
    let mut core_ins = String::new();
    let ids: Vec<u64> = sent.keys().copied().collect();
    let mut next: std::collections::BTreeMap<u64, usize> = Default::default();
    let mut placed: Vec<(u64, usize, usize)> = Vec::new();
    for (i, u) in ups.iter().enumerate() {
        let (old, new) = match (&w.hist[i].1, &w.hist[i + 1].1) {
            (Some(a), Some(b)) => (a, b),
            _ => violation!("harness", "a text of the witness is not known"),
        };
        let (ins, del) = (minus(new, old), minus(old, new));
        if !same_order(old, new) {
            violation!("reordered", "step {} by {} turns {} into {}: characters changed places", i, u["author"], short(old), short(new));
        }
        let author = u["author"].as_str().unwrap_or("").to_string();
        let id = ids.iter().copied().find(|id| author == id.to_string() || author.ends_with(&format!("-{}", id)));
        match id {
            None => core_ins.push_str(&ins),
            Some(id) => {
                let list = &sent[&id];
                let k = next.entry(id).or_insert(0);
                let fits = |s: &Sent| {
                    let want_ins = minus(&s.new, &s.base_text);
                    let want_del: String = atoms(&minus(&s.base_text, &s.new)).into_iter().filter(|c| old.contains(*c)).collect();
                    let sorted = |s: &str| {
                        let mut v = atoms(s);
                        v.sort();
                        v
                    };
                    sorted(&want_ins) == sorted(&ins) && sorted(&want_del) == sorted(&del)
                };
                loop {
                    let s = match list.get(*k) {
                        Some(s) => s,
                        None => violation!("twice", "step {}: an edit of plugin {} which it did not make, or made only once: + {} - {}", i, id, short(&ins), short(&del)),
                    };
                    *k += 1;
                    if fits(s) {
                        if !same_order(&s.new, new) {
                            violation!("misplaced", "step {}: plugin {} made {} of {}; the document became {}, in which the characters come in another order", i, id, short(&s.new), short(&s.base_text), short(new));
                        }
                        placed.push((id, *k - 1, i));
                        break;
                    }
                    // in a group which the user has undone it has no effect
                    if s.group == "last" && sc["undo"] == true && ins.is_empty() && del.is_empty() {
                        break;
                    }
                    if !s.pinned && (total > 18 || sc["undo"] == true) {
                        note("base_forgotten", 1);
                        continue; // its revision may have been forgotten
                    }
                    violation!("not-merged", "step {}: plugin {} made {} of {}; on {} that should insert {} and delete {}, and it inserts {} and deletes {}", i, id, short(&s.new), short(&s.base_text), short(old), short(&minus(&s.new, &s.base_text)), short(&minus(&s.base_text, &s.new)), short(&ins), short(&del));
                }
            }
        }
    }
    for (id, list) in &sent {
        for s in &list[next.get(id).copied().unwrap_or(0)..] {
            if s.pinned || (total <= 18 && sc["undo"] != true) {
                violation!("lost", "an edit of plugin {} was never applied: {} of {}", id, short(&s.new), short(&s.base_text));
            }
        }
    }
    if sc["undo"] != true && core_ins != typed {
        violation!("typed", "the user typed {} and the core inserted {}", short(&typed), short(&core_ins));
    }
    // at one place, the higher priority comes last
    let user_prio = 0x10000;
    for (id, k, i) in placed {
        let s = &sent[&id][k];
        let b = match rev_at(s.base) {
            Some(b) => b,
            None => continue,
        };
        for (l, r, ins) in &s.gaps {
            let (l, r) = match (l, r) {
                (Some(l), Some(r)) if !l.is_ascii() && !r.is_ascii() => (*l, *r),
                _ => continue,
            };
            let between = |t: &str| match (t.find(l), t.find(r)) {
                (Some(a), Some(b)) if a < b => Some(t[a..b].chars().skip(1).collect::<String>()),
                _ => None,
            };
            // nothing had ever been between its neighbours, and they have stayed
            if !w.hist[..=b].iter().all(|h| between(h.1.as_ref().unwrap()).map_or(true, |x| x.is_empty())) || !w.hist[b..=i + 1].iter().all(|h| between(h.1.as_ref().unwrap()).is_some()) {
                continue;
            }
            // only the user wrote there in the meantime
            let by_user = w.hist[b..=i].iter().all(|h| between(h.1.as_ref().unwrap()).unwrap().chars().all(|c| c.is_ascii() || typed.contains(c)));
            let user = minus(&between(w.hist[i].1.as_ref().unwrap()).unwrap(), "");
            if !by_user || user.is_empty() || sc["undo"] == true {
                continue;
            }
            note("priorities", 1);
            let got = minus(&between(w.hist[i + 1].1.as_ref().unwrap()).unwrap(), "");
            let want = if s.prio >= user_prio { format!("{}{}", user, ins) } else { format!("{}{}", ins, user) };
            if got != want {
                violation!("priority", "plugin {} inserted {} with priority {} where the user had inserted {}: there is now {} instead of {}", id, ins, s.prio, user, got, want);
            }
        }
    }
    fe.check_alive();
    fe.shutdown();
}
pub const C10: Prop = Prop {
    id: "C10",
    gen: gen_c10,
    run: run_c10,
    rule: "a run counts when a plugin made at least one edit",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
