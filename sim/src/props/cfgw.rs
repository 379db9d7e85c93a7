//! Configuration: layers, files, languages, and what everybody is told about them (C18).
use crate::driver::Prop;
use crate::fe::*;
use crate::plug::*;
use crate::props::edit::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

type Table = Map<String, Value>;
const DEFAULTS: &str = include_str!("/repo/rust/core-lib/assets/defaults.toml");
/// Languages, and extensions that are theirs.
const LANGS: &[(&str, &[&str])] = &[("Rust", &["rs"]), ("Python", &["py", "pyw"]), ("Make.File", &["Makefile", "mk"])];
const NAMES: &[&str] = &["a.rs", "b.py", "Makefile", "c.txt", "d.mk", "e", "f.pyw", "g.RS"];

fn json_of(v: &toml::Value) -> Value {
    match v {
        toml::Value::String(s) => json!(s),
        toml::Value::Integer(i) => json!(i),
        toml::Value::Float(f) => json!(f),
        toml::Value::Boolean(b) => json!(b),
        toml::Value::Datetime(d) => json!(d.to_string()),
        toml::Value::Array(a) => Value::Array(a.iter().map(json_of).collect()),
        toml::Value::Table(t) => Value::Object(t.iter().map(|(k, v)| (k.clone(), json_of(v))).collect()),
    }
}
fn toml_of(v: &Value) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(toml_of).collect::<Vec<_>>().join(", ")),
        o => o.to_string(),
    }
}
fn parse(s: &str) -> Option<Table> {
    match s.parse::<toml::Value>() {
        Ok(v) => json_of(&v).as_object().cloned(),
        Err(_) => None,
    }
}
/// Settings that are numbers may be sent as 14 or 14.0.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64(),
        _ => a == b,
    }
}
fn gen_pair(r: &mut Rng, bad: bool) -> (String, Value) {
    let flags = ["translate_tabs_to_spaces", "use_tab_stops", "auto_indent", "scroll_past_end", "word_wrap", "autodetect_whitespace", "save_with_newline"];
    let (k, v) = match r.below(14) {
        0..=2 => ("tab_size", if bad { r.pick(&[json!(0), json!(-1), json!("2"), json!(1.5), json!([])]).clone() } else { json!(r.range(1, 9)) }),
        3 => ("font_face", if bad { json!(3) } else { json!(*r.pick(&["Mono", "Serif", "\u{5b8b}\u{4f53}"])) }),
        4 => ("font_size", if bad { json!("12") } else { r.pick(&[json!(9), json!(12.5), json!(14), json!(14.0), json!(20.5)]).clone() }),
        5 => ("wrap_width", if bad { json!(-4) } else { json!(*r.pick(&[0, 10, 40])) }),
        6 => ("line_ending", if bad { json!(true) } else { json!(*r.pick(&["\n", "\r\n"])) }),
        7 => ("surrounding_pairs", if bad { json!([["("]]) } else { r.pick(&[json!([]), json!([["(", ")"]]), json!([["<", ">"], ["'", "'"]])]).clone() }),
        8 if !bad => ("shade", json!(*r.pick(&["dark", "light"]))),
        _ => (*r.pick(&flags), if bad { json!(*r.pick(&["yes", "1"])) } else { json!(r.below(2) == 0) }),
    };
    (k.into(), v)
}
fn gen_table(r: &mut Rng, bad: bool) -> Table {
    let mut t = Table::new();
    for _ in 0..r.range(1, 4) {
        let (k, v) = gen_pair(r, false);
        t.insert(k, v);
    }
    if bad {
        let (k, v) = gen_pair(r, true);
        t.insert(k, v);
    }
    t
}
/// The contents of a configuration file.
fn gen_file(r: &mut Rng, bad: bool) -> String {
    if bad && r.below(2) == 0 {
        return r.pick(&["tab_size = \n", "= 3", "tab_size = 2\ntab_size = 3\n", "[x", "tab_size: 4\n", "\u{fffd}"]).to_string();
    }
    if !bad && r.below(8) == 0 {
        return r.pick(&["", "# nothing\n", "[extra]\na = 1\n"]).to_string();
    }
    gen_table(r, bad).iter().map(|(k, v)| format!("{} = {}\n", k, toml_of(v))).collect()
}
fn gen_doc(r: &mut Rng) -> String {
    r.pick(&["", "abc\ndef\n", "\tone\n\ttwo\n", "  one\n    two\n", "   one\n   two\n", " one\n two\n", "a\r\nb\r\n", "\ta\r\n\tb\r\n", "  a\n\tb\n", "one", "    x\r\n"]).to_string()
}
/// What is detected in such a document.
fn detected(doc: &str) -> Table {
    let mut t = Table::new();
    match doc {
        "\tone\n\ttwo\n" | "\ta\r\n\tb\r\n" => {
            t.insert("translate_tabs_to_spaces".into(), json!(false));
        }
        "  one\n    two\n" => {
            t.insert("translate_tabs_to_spaces".into(), json!(true));
            t.insert("tab_size".into(), json!(2));
        }
        "   one\n   two\n" => {
            t.insert("translate_tabs_to_spaces".into(), json!(true));
            t.insert("tab_size".into(), json!(3));
        }
        "    x\r\n" => {
            t.insert("translate_tabs_to_spaces".into(), json!(true));
            t.insert("tab_size".into(), json!(4));
        }
        _ => {}
    }
    let crlf = doc.matches("\r\n").count();
    let lf = doc.matches('\n').count() - crlf;
    if crlf > 0 && lf == 0 {
        t.insert("line_ending".into(), json!("\r\n"));
    } else if lf > 0 && crlf == 0 {
        t.insert("line_ending".into(), json!("\n"));
    }
    t
}
fn file_of(d: u64) -> String {
    match d {
        0 => "/cfg/preferences.xiconfig".into(),
        i => format!("/cfg/{}.xiconfig", LANGS[i as usize - 1].0),
    }
}
fn gen_c18(r: &mut Rng, th: bool) -> Value {
    let files: Vec<Value> = (0..=LANGS.len()).map(|_| if r.below(2) == 0 { Value::Null } else { let bad = r.below(5) == 0; json!(gen_file(r, bad)) }).collect();
    let defs: Vec<Value> = (0..LANGS.len())
        .map(|_| match r.below(8) {
            0..=3 => json!(gen_table(r, false).iter().map(|(k, v)| format!("{} = {}\n", k, toml_of(v))).collect::<String>()),
            4 => json!(gen_table(r, true).iter().map(|(k, v)| format!("{} = {}\n", k, toml_of(v))).collect::<String>()),
            _ => Value::Null,
        })
        .collect();
    let n = r.range(3, if th { 40 } else { 22 });
    let mut ops = Vec::new();
    let calm = r.below(3) == 0;
    for i in 0..n {
        let bad = r.below(5) == 0;
        let d = r.below(LANGS.len() as u64 + 1);
        ops.push(match r.below(16) {
            _ if i == 0 => json!({"k": "open", "f": *r.pick(NAMES), "text": gen_doc(r)}),
            0 | 1 => json!({"k": "open", "f": if r.below(5) == 0 { Value::Null } else { json!(*r.pick(NAMES)) }, "text": gen_doc(r)}),
            2 => json!({"k": "close", "v": r.below(9)}),
            3..=6 => {
                let mut c = gen_table(r, bad);
                for _ in 0..r.below(3) {
                    let k = gen_pair(r, false).0;
                    c.insert(k, Value::Null);
                }
                json!({"k": "set", "d": *r.pick(&["general", "language", "syntax", "view", "view"]), "l": r.below(LANGS.len() as u64 + 1), "v": r.below(9), "c": c})
            }
            7 => json!({"k": "language", "v": r.below(9), "l": *r.pick(&["Rust", "Python", "Make.File", "Plain Text", "Klingon"])}),
            8 => json!({"k": "save", "v": r.below(9), "f": *r.pick(NAMES)}),
            9 => json!({"k": "pause", "ms": r.below(300)}),
            10 => json!({"k": "check"}),
            11 if r.below(4) == 0 => json!({"k": *r.pick(&["stop", "start"]), "n": 0}),
            11 if calm => json!({"k": "mv", "d": d, "to": r.below(LANGS.len() as u64 + 2)}),
            12 if r.below(2) == 0 => json!({"k": "rm", "d": d}),
            _ => json!({"k": "file", "d": d, "how": *r.pick(&["write", "write", "replace", "parts", "again", "recreate", "in"]), "ms": r.below(250), "text": gen_file(r, bad)}),
        });
    }
    json!({"files": files, "defs": defs, "ops": ops, "watch": r.below(4) > 0})
}
#[derive(Default, Clone)]
struct Lang {
    base: Table,
    user: Table,
}
struct V {
    id: String,
    detected: String,
    user: Option<String>,
    sys: Table,
    over: Table,
}
struct World {
    fe: Fe,
    plugs: Plugs,
    defaults: Table,
    general: Table,
    langs: BTreeMap<String, Lang>,
    views: Vec<V>,
    /// files that changed since the core surely knew
    pending: Vec<bool>,
    /// views whose whitespace may not have been looked at
    young: bool,
    /// A file was moved into place and the core may not have heard of it yet.
    swapped: bool,
    serial: u64,
}
fn detect(f: &str) -> String {
    let p = std::path::Path::new(f);
    let e = p.extension().or(p.file_name()).unwrap().to_str().unwrap().to_string();
    LANGS.iter().find(|l| l.1.contains(&e.as_str())).map_or("Plain Text".to_string(), |l| l.0.to_string())
}
impl World {
    fn valid(&self, t: &Table) -> bool {
        let int = |v: &Value, min: i64| v.as_i64().map_or(false, |i| i >= min);
        t.iter().all(|(k, v)| match k.as_str() {
            "tab_size" => int(v, 1),
            "wrap_width" => int(v, 0),
            "font_size" => v.is_number(),
            "font_face" | "line_ending" => v.is_string(),
            "surrounding_pairs" => v.as_array().map_or(false, |a| a.iter().all(|p| p.as_array().map_or(false, |p| p.len() == 2))),
            "translate_tabs_to_spaces" | "use_tab_stops" | "auto_indent" | "scroll_past_end" | "word_wrap" | "autodetect_whitespace" | "save_with_newline" => v.is_boolean(),
            _ => true,
        })
    }
    fn layer(&mut self, d: u64) -> &mut Table {
        match d {
            0 => &mut self.general,
            i => &mut self.langs.entry(LANGS[i as usize - 1].0.into()).or_default().user,
        }
    }
    fn expected(&self, v: &V) -> Table {
        let mut t = self.defaults.clone();
        let mut over = |o: &Table| {
            for (k, x) in o {
                t.insert(k.clone(), x.clone());
            }
        };
        over(&self.general);
        let name = v.user.as_ref().unwrap_or(&v.detected);
        if LANGS.iter().any(|l| l.0 == name) {
            if let Some(l) = self.langs.get(name) {
                over(&l.base);
                over(&l.user);
            }
        }
        over(&v.sys);
        over(&v.over);
        t
    }
    /// Waits until the core has heard of everything that happened to files.
    fn quiesce(&mut self) {
        let was = sim().faults_on;
        sim().faults_on = false;
        for i in 0..3 {
            sleep(250 * MS);
            vos::h_write("/cfg/bystander", &[i]);
        }
        sleep(250 * MS);
        self.fe.settle();
        sim().faults_on = was;
        self.pending.iter_mut().for_each(|p| *p = false);
        self.young = false;
        self.swapped = false;
    }
    fn check(&mut self, what: &str) {
        if self.pending.iter().any(|p| *p) {
            self.quiesce();
        } else {
            self.fe.settle();
            self.young = false;
        }
        for n in ["cfg0", "cfg1"] {
            if let Some(p) = self.plugs.get(n) {
                if !p.dead() && !p.st.with(|s| s.shutdown) && p.st.with(|s| s.plugin_id.is_some()) {
                    let _ = p.request("line_count", &self.views.first().map_or("view-id-99999".into(), |v| v.id.clone()), json!({}));
                }
            }
        }
        for v in &self.views {
            let want = self.expected(v);
            let lang = v.user.as_ref().unwrap_or(&v.detected);
            let got = match self.fe.request("get_config", json!({"view_id": v.id})) {
                Ok(Value::Object(t)) => t,
                o => violation!("get-config", "{}: get_config for {} answered {:?}", what, v.id, o),
            };
            for (k, x) in &want {
                if !got.get(k).map_or(false, |y| same(x, y)) {
                    violation!("config-wrong", "{}: {} of {} ({}) should be {} and is {:?}", what, k, v.id, lang, x, got.get(k));
                }
            }
            if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
                violation!("config-wrong", "{}: {} of {} ({}) is {} though nothing sets it", what, k, v.id, lang, got[k]);
            }
            let m = self.fe.mirror(&v.id);
            for (k, x) in &want {
                if !m.config.get(k).map_or(false, |y| same(x, y)) {
                    violation!("config-not-told", "{}: {} of {} ({}) is {} but the front-end was told {:?}", what, k, v.id, lang, x, m.config.get(k));
                }
            }
            if m.language.as_ref() != Some(lang) {
                violation!("language-wrong", "{}: the language of {} is {} but the front-end was told {:?}", what, v.id, lang, m.language);
            }
            note("compared", 1);
            for n in ["cfg0", "cfg1"] {
                let p = match self.plugs.get(n) {
                    Some(p) if !p.dead() && !p.st.with(|s| s.shutdown) && p.st.with(|s| s.plugin_id.is_some()) => p,
                    _ => continue,
                };
                let w = match p.view(&v.id) {
                    Some(w) if w.begun > 0 => w,
                    _ => violation!("plugin-unaware", "{}: plugin {} was never told about {}", what, n, v.id),
                };
                for (k, x) in &want {
                    if w.config.get(k).is_none() && !["tab_size", "line_ending"].contains(&k.as_str()) {
                        // what is not a setting of buffers is not in the description of a buffer
                        continue;
                    }
                    if !w.config.get(k).map_or(false, |y| same(x, y)) {
                        violation!("config-not-told", "{}: {} of {} ({}) is {} but plugin {} was told {:?}", what, k, v.id, lang, x, n, w.config.get(k));
                    }
                }
                if &w.syntax != lang {
                    violation!("language-wrong", "{}: the language of {} is {} but plugin {} was told {:?}", what, v.id, lang, n, w.syntax);
                }
                note("compared-plugin", 1);
            }
        }
    }
    fn reported(&self, before: usize, what: &str, why: &str) {
        if self.fe.alerts().len() == before {
            violation!("not-reported", "{}: {} was not reported to the user", what, why);
        }
        note("rejected", 1);
    }
    /// The file of a layer has this in it now (or is gone).
    fn file_is(&mut self, d: u64, text: Option<&str>) -> bool {
        self.pending[d as usize] = true;
        match text {
            None => {
                *self.layer(d) = Table::new();
                true
            }
            Some(t) => match parse(t) {
                Some(t) if self.valid(&t) => {
                    *self.layer(d) = t;
                    true
                }
                _ => false,
            },
        }
    }
}
fn run_c18(sc: &Value) {
    sim().stall_named = true;
    vos::h_mkdirs("/w");
    vos::h_mkdirs("/away");
    vos::h_mkdirs("/cfg/plugins");
    vos::h_mkdirs("/cfg/themes");
    let plugs = Plugs::new();
    let mut s = Spec::new("cfg0");
    for (n, e) in LANGS {
        s.languages += &format!("[[languages]]\nname = \"{}\"\nextensions = {}\nscope = \"source.x\"\n", n, json!(e));
    }
    plugs.install("/cfg", s);
    if sc["watch"] == true {
        plugs.install("/cfg", Spec::new("cfg1"));
    }
    let defaults = parse(DEFAULTS).unwrap();
    let mut w = World {
        fe: Fe::start_raw(65536, false),
        plugs,
        defaults,
        general: Table::new(),
        langs: BTreeMap::new(),
        views: Vec::new(),
        pending: vec![false; LANGS.len() + 1],
        young: false,
        swapped: false,
        serial: 0,
    };
    for (i, d) in sc["defs"].as_array().unwrap().iter().enumerate() {
        if let Some(t) = d.as_str() {
            vos::h_write(&format!("/cfg/plugins/cfg0/{}.toml", LANGS[i].0), t.as_bytes());
            let t = parse(t).unwrap();
            if w.valid(&t) {
                w.langs.entry(LANGS[i].0.into()).or_default().base = t;
            }
        }
    }
    let mut bad = false;
    for (i, d) in sc["files"].as_array().unwrap().iter().enumerate() {
        if let Some(t) = d.as_str() {
            vos::h_write(&file_of(i as u64), t.as_bytes());
            bad |= !w.file_is(i as u64, Some(t)) && i == 0;
        }
    }
    w.pending.iter_mut().for_each(|p| *p = false);
    w.fe.start_session(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    w.fe.settle();
    if bad {
        w.reported(0, "at the start", "the unusable preferences file");
    }
    let up = eventually_in(60 * SEC, 5 * MS, || w.plugs.get("cfg0").map_or(false, |p| p.st.with(|s| s.plugin_id.is_some())));
    if !up {
        violation!("plugin-start", "the plugin was not started");
    }
    if sc["watch"] == true {
        let _ = eventually_in(60 * SEC, 5 * MS, || w.plugs.get("cfg1").map_or(false, |p| p.st.with(|s| s.plugin_id.is_some())));
    }
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {} {}", i, op);
        let what = format!("op {} {}", i, op["k"].as_str().unwrap());
        let vi = if w.views.is_empty() { None } else { op["v"].as_u64().map(|v| v as usize % w.views.len()) };
        match op["k"].as_str().unwrap() {
            "open" => {
                if w.pending.iter().any(|p| *p) {
                    w.quiesce();
                }
                w.serial += 1;
                let path = op["f"].as_str().map(|f| {
                    let d = format!("/w/{}", w.serial);
                    vos::h_mkdirs(&d);
                    format!("{}/{}", d, f)
                });
                let mut text = "";
                if let Some(p) = &path {
                    text = op["text"].as_str().unwrap();
                    vos::h_write(p, text.as_bytes());
                }
                let id = w.fe.new_view(path.as_deref());
                let mut v = V { id, detected: op["f"].as_str().map_or("Plain Text".into(), detect), user: None, sys: Table::new(), over: Table::new() };
                if w.expected(&v)["autodetect_whitespace"] == true {
                    v.sys = detected(text);
                }
                w.views.push(v);
                w.young = true;
            }
            "close" => {
                if let Some(i) = vi {
                    let v = w.views.remove(i);
                    w.fe.notify("close_view", json!({"view_id": v.id}));
                }
            }
            "set" => {
                let d = op["d"].as_str().unwrap();
                let l = op["l"].as_u64().unwrap();
                let c = op["c"].as_object().unwrap();
                if w.young && c.contains_key("autodetect_whitespace") {
                    w.fe.settle();
                    w.young = false;
                }
                let layer = match d {
                    "general" => 0,
                    "view" => 99,
                    _ => l.max(1),
                };
                if layer < 99 && w.pending[layer as usize] {
                    w.quiesce();
                }
                let dom = match d {
                    "general" => json!("general"),
                    "view" => match vi {
                        Some(i) => json!({"user_override": w.views[i].id}),
                        None => continue,
                    },
                    _ => json!({ d: LANGS[layer as usize - 1].0 }),
                };
                let old = if layer == 99 { w.views[vi.unwrap()].over.clone() } else { w.layer(layer).clone() };
                let mut new = old.clone();
                for (k, x) in c {
                    if x.is_null() {
                        new.remove(k);
                    } else {
                        new.insert(k.clone(), x.clone());
                    }
                }
                let al = w.fe.alerts().len();
                w.fe.notify("modify_user_config", json!({"domain": dom, "changes": c}));
                if w.valid(&new) {
                    if layer == 99 {
                        w.views[vi.unwrap()].over = new;
                    } else {
                        *w.layer(layer) = new;
                    }
                } else {
                    let _ = w.fe.request("get_config", json!({"view_id": "view-id-99999"}));
                    w.reported(al, &what, "the change to an impossible value");
                }
                note("nontrivial", 1);
            }
            "file" | "rm" | "mv" => {
                let d = op["d"].as_u64().unwrap();
                let f = file_of(d);
                let p = f.as_str();
                let text = op["text"].as_str().unwrap_or("").to_string();
                if w.young && (text.contains("autodetect") || op["k"] != "file") {
                    w.fe.settle();
                    w.young = false;
                }
                // a change of the same layer that the front-end sent before comes first
                let _ = w.fe.request("get_config", json!({"view_id": "view-id-99999"}));
                let al = w.fe.alerts().len();
                let ok = parse(&text).map_or(false, |t| w.valid(&t));
                if !ok {
                    // so that it is clear what remains
                    w.quiesce();
                }
                if op["k"] == "file" && text.is_empty() && vos::h_read(p).map_or(false, |t| t.is_empty()) {
                    // no event tells of an empty file that is truncated
                    continue;
                }
                if (w.swapped && op["how"] != "write") || (op["k"] != "file" && w.pending[d as usize]) {
                    // notify reports what becomes of a file moved into place under the name it came from
                    w.quiesce();
                }
                let ms = op["ms"].as_u64().unwrap_or(0) * MS + MS;
                let al = if ok { al } else { w.fe.alerts().len() };
                match (op["k"].as_str().unwrap(), op["how"].as_str().unwrap_or("")) {
                    ("rm", _) => {
                        if vos::h_read(p).is_none() {
                            continue;
                        }
                        vos::h_remove(p);
                        w.file_is(d, None);
                    }
                    ("mv", _) => {
                        let t = match vos::h_read(p) {
                            Some(t) => String::from_utf8(t).unwrap(),
                            None => continue,
                        };
                        w.quiesce();
                        let to = op["to"].as_u64().unwrap();
                        if to == d {
                            continue;
                        }
                        let q = if to > LANGS.len() as u64 { "/cfg/unknown.bak".to_string() } else { file_of(to) };
                        vos::h_rename(p, &q);
                        w.file_is(d, None);
                        if to <= LANGS.len() as u64 {
                            w.file_is(to, Some(&t));
                        }
                        w.quiesce();
                    }
                    // (the core may read an empty file between truncation and writing: for what
                    // leaves the settings as they were, that matters)
                    (_, how) if how == "replace" || !ok => {
                        vos::h_replace(p, text.as_bytes());
                        w.swapped = true;
                        w.file_is(d, Some(&text));
                    }
                    (_, "parts") if ok => {
                        let mut h = text.len() / 2;
                        while !text.is_char_boundary(h) {
                            h -= 1;
                        }
                        vos::h_write(p, text[..h].as_bytes());
                        sleep(ms);
                        vos::h_write(p, text.as_bytes());
                        w.file_is(d, Some(&text));
                    }
                    (_, "again") if ok => {
                        if let Some(t) = vos::h_read(p) {
                            vos::h_write(p, b"tab_size = 11\n");
                            sleep(ms);
                            vos::h_write(p, &t);
                            w.pending[d as usize] = true;
                            if !w.file_is(d, Some(&String::from_utf8(t).unwrap())) {
                                // what is unusable leaves what there was before, whatever that was
                                vos::h_write(p, text.as_bytes());
                                w.file_is(d, Some(&text));
                            }
                        }
                    }
                    (_, "recreate") if ok => {
                        vos::h_remove(p);
                        sleep(ms);
                        vos::h_write(p, text.as_bytes());
                        w.file_is(d, Some(&text));
                    }
                    (_, "in") => {
                        vos::h_write("/away/n", text.as_bytes());
                        vos::h_rename("/away/n", p);
                        w.swapped = true;
                        w.file_is(d, Some(&text));
                    }
                    _ => {
                        vos::h_write(p, text.as_bytes());
                        w.file_is(d, Some(&text));
                    }
                }
                if !ok && op["k"] == "file" {
                    w.quiesce();
                    w.reported(al, &what, "an unusable configuration file");
                }
                note("nontrivial", 1);
            }
            "language" => {
                if let Some(i) = vi {
                    if w.young {
                        w.fe.settle();
                        w.young = false;
                    }
                    let l = op["l"].as_str().unwrap();
                    w.views[i].user = Some(l.into());
                    w.fe.notify("set_language", json!({"view_id": w.views[i].id, "language_id": l}));
                    note("nontrivial", 1);
                }
            }
            "save" => {
                if let Some(i) = vi {
                    if w.young {
                        w.fe.settle();
                        w.young = false;
                    }
                    w.serial += 1;
                    let d = format!("/w/{}", w.serial);
                    vos::h_mkdirs(&d);
                    let f = op["f"].as_str().unwrap();
                    w.views[i].detected = detect(f);
                    w.fe.notify("save", json!({"view_id": w.views[i].id, "file_path": format!("{}/{}", d, f)}));
                    note("nontrivial", 1);
                }
            }
            "stop" | "start" => {
                let v = w.views.first().map_or("view-id-1".to_string(), |v| v.id.clone());
                w.fe.notify("plugin", json!({"command": op["k"], "view_id": v, "plugin_name": "cfg0"}));
            }
            "pause" => sleep(op["ms"].as_u64().unwrap() * MS),
            _ => w.check(&what),
        }
    }
    w.check("at the end");
    let mut s = 0u64;
    for v in &w.views {
        s = s.wrapping_mul(31).wrapping_add(crate::driver::hash(Value::Object(w.expected(v)).to_string().as_bytes()));
    }
    sig(s);
}
pub const C18: Prop = Prop {
    id: "C18",
    gen: gen_c18,
    run: run_c18,
    rule: "a run counts when at least one layer, file, language or path was changed",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
