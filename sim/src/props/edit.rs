//! Editing in the whole core against the reference editor.
use crate::driver::Prop;
use crate::fe::*;
use crate::model::{self, Model};
use crate::plug::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};

pub const REAL: &[&str] = &["xi-core-lib (whole core: tabs, editor, view, config, files)", "xi-rope", "xi-rpc", "xi-trace", "syntect theme loading, serde, std threads and locks"];
pub const STUB: &[&str] = &["kernel: scheduler, futex, clock, pipes, file system, inotify (virtual)", "front-end (simulated: line cache, width measurement)"];
pub const ASSUME: &[&str] = &["sequentially consistent memory; one virtual CPU with preemption at basic blocks and system calls", "a pipe delivers bytes in order; reads and writes may be short, interrupted or late"];

// ------------------------------------------------------------ generators
const WORDS: &[&str] = &["foo", "bar", "x", "alpha", "it's", "don't", "a.b", "f(x)", "-12", "7", "99", "0x1f", "Grün", "naïve", "日本語", "café", "ßtraße", "ǆ", "ﬁ", "e\u{301}", "👍", "👨\u{200d}👩\u{200d}👧", "🇩🇪🇫🇷", "1\u{fe0f}\u{20e3}", "\u{200b}", "\"q\"", "{", "}", "[z]", "--", "i", "W"];
/// What user-perceived characters are made of.
const PARTS: &[&str] = &[
    "a", "9", "#", " ", "e", "\u{301}", "\u{fe0f}", "\u{fe0e}", "\u{20e3}", "\u{200d}", "👍", "👩", "❤", "☝", "\u{1f3fd}", "\u{1f3fb}", "🇩", "🇪", "🇫", "🏴", "\u{e0067}", "\u{e0062}", "\u{e007f}", "각", "\u{1100}", "\u{1161}", "\u{11a8}", "ก", "\u{e33}", "\u{200c}",
];
const GRAPHEMES: &[&str] = &["🇩🇪", "🇫🇷", "👍🏽", "❤\u{fe0f}", "☝\u{fe0f}🏽", "9\u{fe0f}\u{20e3}", "#\u{20e3}", "👩\u{200d}❤\u{fe0f}\u{200d}👩", "👩🏽\u{200d}👩", "🏴\u{e0067}\u{e0062}\u{e007f}", "\u{1100}\u{1161}\u{11a8}", "e\u{301}\u{301}", "\r\n", "a"];
pub fn gen_parts(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        s.push_str(if r.below(2) == 0 { *r.pick(GRAPHEMES) } else { *r.pick(PARTS) });
    }
    s
}
pub fn gen_line(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 => return s,
        1 => s.push('\t'),
        2 => s.push_str("    "),
        3 => s.push_str(&" ".repeat(r.below(9) as usize)),
        _ => {}
    }
    for i in 0..r.below(7) {
        if i > 0 {
            s.push_str(*r.pick(&[" ", " ", " ", "  ", "\t", ", ", ""]));
        }
        if r.below(16) == 0 {
            s.push_str(&gen_parts(r).replace("\r\n", "x"));
        } else {
            s.push_str(*r.pick(WORDS));
        }
    }
    s
}
pub fn gen_text(r: &mut Rng, max: u64) -> String {
    let eol = *r.pick(&["\n", "\n", "\n", "\r\n"]);
    let n = r.below(max + 1);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&gen_line(r));
        if i + 1 < n || r.below(2) == 0 {
            s.push_str(eol);
        }
    }
    s
}
pub fn gen_insert(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => (*r.pick(&["a", "b", " ", "z", "1", "é", "\t", "-", "_"])).into(),
        4 => (*r.pick(&["\"", "'", "{", "[", "(", "}", "]"])).into(),
        5 => gen_parts(r),
        6 => (*r.pick(WORDS)).into(),
        7 => "\n".into(),
        8 => gen_line(r),
        _ => gen_text(r, 4),
    }
}
pub const MOVES: &[&str] = &[
    "move_up", "move_down", "move_left", "move_right", "move_backward", "move_forward", "move_word_left", "move_word_right",
    "move_to_beginning_of_paragraph", "move_to_end_of_paragraph", "move_to_left_end_of_line", "move_to_right_end_of_line",
    "move_to_beginning_of_document", "move_to_end_of_document", "scroll_page_up", "scroll_page_down",
    "move_up_and_modify_selection", "move_down_and_modify_selection", "move_left_and_modify_selection", "move_right_and_modify_selection",
    "move_word_left_and_modify_selection", "move_word_right_and_modify_selection",
    "move_to_beginning_of_paragraph_and_modify_selection", "move_to_end_of_paragraph_and_modify_selection",
    "move_to_left_end_of_line_and_modify_selection", "move_to_right_end_of_line_and_modify_selection",
    "move_to_beginning_of_document_and_modify_selection", "move_to_end_of_document_and_modify_selection",
    "page_up_and_modify_selection", "page_down_and_modify_selection",
    "select_all", "add_selection_above", "add_selection_below", "collapse_selections", "selection_into_lines",
];
pub fn gen_view(r: &mut Rng, lines: u64) -> (String, Value) {
    let pos = |r: &mut Rng| (r.below(lines + 2), *r.pick(&[0u64, 1, 2, 3, 5, 8, 13, 40]));
    match r.below(10) {
        0..=5 => ((*r.pick(MOVES)).into(), json!([])),
        6 | 7 => {
            let (l, c) = pos(r);
            let g = *r.pick(&["point", "word", "line"]);
            let ty = match r.below(6) {
                0..=2 => json!({"select": {"granularity": g, "multi": r.below(3) > 0}}),
                3 => json!({"select_extend": {"granularity": g}}),
                4 => json!("drag"),
                _ => json!(*r.pick(&["point_select", "toggle_sel", "range_select", "line_select", "word_select", "multi_line_select", "multi_word_select"])),
            };
            ("gesture".into(), json!({"line": l, "col": c, "ty": ty}))
        }
        8 => {
            let (l, c) = pos(r);
            ("click".into(), json!([l, c, *r.pick(&[0u64, 2]), r.range(1, 3)]))
        }
        _ => match r.below(3) {
            0 => ("goto_line".into(), json!({"line": r.below(lines + 3)})),
            1 => {
                let (l, c) = pos(r);
                ("drag".into(), json!([l, c, 0, 1]))
            }
            _ => {
                let a = r.below(lines + 2);
                ("scroll".into(), json!([a, a + r.below(30)]))
            }
        },
    }
}
pub const EDITS: &[&str] = &[
    "delete_forward", "delete_backward", "delete_backward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph", "delete_to_beginning_of_line",
    "insert_newline", "insert_tab", "insert_tab", "indent", "outdent", "transpose", "uppercase", "lowercase", "capitalize", "duplicate_line",
    "increase_number", "decrease_number", "yank",
];
pub fn gen_edit(r: &mut Rng) -> (String, Value) {
    match r.below(12) {
        0..=4 => ("insert".into(), json!({ "chars": gen_insert(r) })),
        5 => {
            let s = if r.below(2) == 0 { gen_text(r, 5) } else { gen_insert(r) };
            ("paste".into(), json!({ "chars": s }))
        }
        6 => ((*r.pick(&["cut", "copy", "cut"])).into(), json!([])),
        7 | 8 => ((*r.pick(&["undo", "undo", "redo"])).into(), json!([])),
        _ => ((*r.pick(EDITS)).into(), json!([])),
    }
}
pub fn gen_cmd(r: &mut Rng, lines: u64) -> (String, Value) {
    if r.below(2) == 0 {
        gen_view(r, lines)
    } else {
        gen_edit(r)
    }
}
pub fn is_request(m: &str) -> bool {
    m == "cut" || m == "copy"
}

// ------------------------------------------------------------ checks
/// The front-end's lines against the text, when nothing is soft-wrapped.
pub fn check_mirror(what: &str, v: &str, m: &Mirror, text: &str, md: Option<&Model>) {
    let n = model::line_of(text, text.len()) + 1;
    if m.lines.len() != n {
        violation!("mirror-lines", "{}: {} has {} lines in the front-end and {} in the core", what, v, m.lines.len(), n);
    }
    for (i, l) in m.lines.iter().enumerate() {
        let l = match l {
            Some(l) => l,
            None => {
                if let Some(md) = md {
                    if i >= md.first && i < md.first + md.height {
                        violation!("mirror-missing", "{}: line {} of {} is on screen ({}+{}) but the front-end has not been sent it", what, i, v, md.first, md.height);
                    }
                }
                continue;
            }
        };
        let (a, b) = (model::line_start(text, i), model::line_start(text, i + 1));
        if l.text != text[a..b] {
            violation!("mirror-text", "{}: line {} of {} is {:?} in the front-end and {:?} in the core", what, i, v, l.text, &text[a..b]);
        }
        if l.ln != Some(i + 1) {
            violation!("mirror-ln", "{}: line {} of {} is numbered {:?}", what, i, v, l.ln);
        }
        if let Some(md) = md {
            let c = md.cursors(i);
            if l.cursor != c {
                violation!("mirror-cursor", "{}: cursors on line {} of {} are {:?} in the front-end and {:?} in the reference (line {:?})", what, i, v, l.cursor, c, l.text);
            }
            let s = md.spans(i);
            let mut have = vec![];
            let mut at = 0i64;
            for t in l.styles.chunks(3) {
                let st = at + t[0];
                at = st + t[1];
                if t[2] == 0 {
                    have.push((st as usize, at as usize));
                }
            }
            if have != s {
                violation!("mirror-selection", "{}: selections on line {} of {} are {:?} in the front-end and {:?} in the reference (line {:?})", what, i, v, have, s, l.text);
            }
        }
    }
}
pub fn short(s: &str) -> String {
    if s.len() < 300 {
        format!("{:?}", s)
    } else {
        format!("{:?}...({} bytes)", s.chars().take(200).collect::<String>(), s.len())
    }
}
pub fn check_text(what: &str, v: &str, fe: &Fe, md: &Model) {
    let have = fe.contents(v);
    if have.as_deref() != Some(&md.text) {
        let h = have.unwrap_or_default();
        violation!("text", "{}: the text of {} is {} and should be {}", what, v, short(&h), short(&md.text));
    }
}

// ------------------------------------------------------------ C06
fn gen_c06(r: &mut Rng, th: bool) -> Value {
    let n = r.range(3, if th { 120 } else { 45 });
    let views = if r.below(4) == 0 { 2 } else { 1 };
    let texts: Vec<String> = (0..views).map(|_| { let k = *r.pick(&[0u64, 3, 10, 40]); gen_text(r, k) }).collect();
    let lines = texts[0].matches('\n').count() as u64;
    let flavour = r.below(5);
    let mut next: Vec<(String, Value)> = vec![];
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            if flavour == 4 && next.is_empty() && r.below(3) > 0 {
                // write something and take it apart, mostly in the middle of a line
                let n = r.range(1, 8);
                for _ in 0..n {
                    let m = *r.pick(&["delete_backward", "delete_backward", "delete_backward", "delete_forward", "move_left", "move_right", "transpose", "move_left_and_modify_selection", "delete_word_backward", "add_selection_above"]);
                    next.push((m.into(), json!([])));
                }
                next.push(("insert".into(), json!({ "chars": gen_parts(r) })));
            }
            let (m, p) = match flavour {
                4 if !next.is_empty() => next.pop().unwrap(),
                0 => gen_cmd(r, lines),
                _ => {
                    // many carets, then edits
                    if r.below(3) == 0 {
                        gen_edit(r)
                    } else {
                        gen_view(r, lines)
                    }
                }
            };
            json!({"v": r.below(views), "m": m, "p": p})
        })
        .collect();
    json!({"texts": texts, "ops": ops, "check": *r.pick(&[1u64, 1, 1, 3, 1000]), "open": *r.pick(&["paste", "file"]), "conf": gen_conf(r)})
}
pub fn gen_conf(r: &mut Rng) -> Value {
    let mut c = json!({});
    if r.below(2) == 0 {
        c["tab_size"] = json!(*r.pick(&[1u64, 2, 3, 8]));
    }
    if r.below(3) == 0 {
        c["translate_tabs_to_spaces"] = json!(false);
    }
    if r.below(4) == 0 {
        c["use_tab_stops"] = json!(false);
    }
    if r.below(4) == 0 {
        c["line_ending"] = json!("\r\n");
    }
    c
}
fn run_c06(sc: &Value) {
    run_ref(sc)
}
/// Runs commands on the core and on the reference editor side by side. With `plugs`, watching plugins run too.
pub fn run_ref(sc: &Value) {
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    let with_plugs = sc["plugs"].as_array().map_or(false, |a| !a.is_empty());
    let fe = if with_plugs {
        install_watchers(&plugs, sc);
        Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() })
    } else {
        Fe::start(Start::default())
    };
    fe.notify("modify_user_config", json!({"domain": "general", "changes": sc["conf"]}));
    let mut kill = String::new();
    let mut vs: Vec<(String, Model, model::Cfg)> = Vec::new();
    for (i, t) in sc["texts"].as_array().unwrap().iter().enumerate() {
        let t = t.as_str().unwrap();
        let (v, md) = if sc["open"] == "file" {
            let p = format!("/w/f{}", i);
            vos::h_write(&p, t.as_bytes());
            (fe.new_view(Some(&p)), Model::new(t))
        } else {
            (fe.new_view(None), Model::new(""))
        };
        vs.push((v, md, model::Cfg::default()));
    }
    fe.settle();
    for (i, x) in vs.iter_mut().enumerate() {
        x.2.apply(&fe.mirror(&x.0).config);
        if sc["open"] != "file" {
            let p = json!({"chars": sc["texts"][i]});
            fe.edit(&x.0, "paste", p.clone());
            x.1.cmd("paste", &p, &x.2, &mut kill);
            fe.edit(&x.0, "move_to_beginning_of_document", json!([]));
            x.1.cmd("move_to_beginning_of_document", &json!([]), &x.2, &mut kill);
        }
    }
    let every = sc["check"].as_u64().unwrap() as usize;
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        if act_plugs(&fe, &plugs, op, &vs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) {
            continue;
        }
        let x = &mut vs[op["v"].as_u64().unwrap() as usize];
        let m = op["m"].as_str().unwrap();
        slog!("op {} {} {} sel={:?}", x.0, m, op["p"], x.1.sel);
        let want = x.1.cmd(m, &op["p"], &x.2, &mut kill);
        if is_request(m) {
            let got = fe.edit_request(&x.0, m, op["p"].clone());
            if got != Ok(want.clone()) {
                violation!("answer", "op {} {}: answered {:?} instead of {}", i, m, got, want);
            }
        } else {
            fe.edit(&x.0, m, op["p"].clone());
        }
        if (i + 1) % every == 0 {
            check_text(&format!("after op {} {} {}", i, m, op["p"]), &x.0, &fe, &x.1);
            if every == 1 && !with_plugs {
                check_mirror(&format!("after op {} {} {}", i, m, op["p"]), &x.0, &fe.mirror(&x.0), &x.1.text, Some(&x.1));
            }
        }
        note("nontrivial", 1);
    }
    fe.settle();
    if sc["laws"] == true {
        undo_laws(&fe, &mut vs);
    }
    if sc["save"] == true {
        for (i, x) in vs.iter_mut().enumerate() {
            let p = format!("/w/out{}", i);
            fe.notify("save", json!({"view_id": x.0, "file_path": p}));
            fe.settle();
            let want = x.1.text_for_save(&x.2);
            x.1.mark_saved();
            let got = vos::h_read(&p).unwrap_or_default();
            if got != want.as_bytes() {
                violation!("saved", "{} was saved as {} and should be {}", x.0, short(&String::from_utf8_lossy(&got)), short(&want));
            }
        }
    }
    for x in &mut vs {
        check_text("at the end", &x.0, &fe, &x.1);
        let m = fe.mirror(&x.0);
        check_mirror("at the end", &x.0, &m, &x.1.text, Some(&x.1));
        if !x.1.pristine_ok(m.pristine) {
            violation!("pristine", "{} is shown as pristine={} and should be {}", x.0, m.pristine, x.1.pristine());
        }
        sig(crate::driver::hash(x.1.text.as_bytes()));
    }
}
// ------------------------------------------------------------ watching plugins
pub fn gen_watchers(r: &mut Rng, n: u64) -> Value {
    let l: Vec<Value> = (0..n)
        .map(|i| {
            json!({"n": format!("watch{}", i), "ack": *r.pick(&["now", "late", "late", "hold", "hold"]), "ms": *r.pick(&[1u64, 3, 10, 40, 200]), "slow": *r.pick(&[0u64, 0, 0, 1, 5])})
        })
        .collect();
    json!(l)
}
pub fn install_watchers(plugs: &Plugs, sc: &Value) {
    for p in sc["plugs"].as_array().unwrap() {
        let mut s = Spec::new(p["n"].as_str().unwrap());
        s.ack = match p["ack"].as_str().unwrap() {
            "now" => Ack::Now,
            "hold" => Ack::Hold,
            _ => Ack::After(p["ms"].as_u64().unwrap() * MS),
        };
        s.slow = p["slow"].as_u64().unwrap_or(0) * MS;
        s.strict = false;
        plugs.install("/cfg", s);
    }
}
/// Something a watching plugin does, or the user does to it.
pub fn gen_plug_act(r: &mut Rng, plugs: u64, deadly: bool) -> Value {
    let n = format!("watch{}", r.below(plugs.max(1)));
    match r.below(if deadly { 9 } else { 4 }) {
        0 | 1 => json!({"k": "release", "n": n}),
        2 => json!({"k": "wait", "ms": *r.pick(&[1u64, 5, 30, 150])}),
        3 => json!({"k": "ack", "n": n, "a": *r.pick(&["now", "late", "hold"])}),
        4 => json!({"k": "kill", "n": n}),
        5 => json!({"k": "hangup", "n": n}),
        6 => json!({"k": "stop", "n": n}),
        7 => json!({"k": "start", "n": n}),
        _ => json!({"k": "read", "n": n, "start": r.below(40), "max": r.below(50), "unit": *r.pick(&["utf8", "line"])}),
    }
}
pub fn act_plugs(fe: &Fe, plugs: &Plugs, op: &Value, views: &[String]) -> bool {
    let k = match op["k"].as_str() {
        Some(k) => k,
        None => return false,
    };
    let name = op["n"].as_str().unwrap_or("");
    let p = plugs.get(name);
    slog!("op {}", op);
    match (k, p) {
        ("wait", _) => sleep(op["ms"].as_u64().unwrap() * MS),
        ("release", Some(p)) => {
            p.release();
        }
        ("ack", Some(p)) => {
            p.set_ack(match op["a"].as_str().unwrap() {
                "now" => Ack::Now,
                "hold" => Ack::Hold,
                _ => Ack::After(7 * MS),
            });
        }
        ("kill", Some(p)) => p.kill(),
        ("hangup", Some(p)) => p.hang_up(),
        ("stop", _) => fe.notify("plugin", json!({"command": "stop", "view_id": views[0], "plugin_name": name})),
        ("start", _) => fe.notify("plugin", json!({"command": "start", "view_id": views[0], "plugin_name": name})),
        ("read", Some(p)) => {
            if let Some(w) = p.view(&views[0]) {
                p.send("get_data", &views[0], json!({"start": op["start"], "unit": op["unit"], "max_size": op["max"], "rev": w.rev}));
                p.send("line_count", &views[0], json!({}));
            }
        }
        _ => {}
    }
    true
}

// ------------------------------------------------------------ C07
/// Undoing and redoing step through the same texts in both directions, whatever the reference says.
fn undo_laws(fe: &Fe, vs: &mut [(String, Model, model::Cfg)]) {
    for x in vs.iter_mut() {
        let mut kill = String::new();
        let mut seen = vec![fe.contents(&x.0).unwrap_or_default()];
        for _ in 0..25 {
            fe.edit(&x.0, "undo", json!([]));
            x.1.cmd("undo", &json!([]), &x.2, &mut kill);
            seen.push(fe.contents(&x.0).unwrap_or_default());
        }
        let bottom = seen[25].clone();
        check_text("after undoing everything", &x.0, fe, &x.1);
        let mut up = vec![bottom];
        for _ in 0..25 {
            fe.edit(&x.0, "redo", json!([]));
            x.1.cmd("redo", &json!([]), &x.2, &mut kill);
            up.push(fe.contents(&x.0).unwrap_or_default());
        }
        check_text("after redoing everything", &x.0, fe, &x.1);
        let walk = |v: &[String]| {
            let mut w: Vec<String> = v.to_vec();
            w.dedup();
            w
        };
        // redoing visits the texts that undoing visited, backwards; it may go beyond where undoing began
        let mut down = walk(&seen);
        down.reverse();
        let up = walk(&up);
        if !up.starts_with(&down) {
            violation!("undo-redo", "{}: undoing went through {:?} but redoing goes through {:?}", x.0, down.iter().map(|s| short(s)).collect::<Vec<_>>(), up.iter().map(|s| short(s)).collect::<Vec<_>>());
        }
        if up.len() > 2 {
            note("undo-walks", 1);
        }
    }
}
fn gen_c07(r: &mut Rng, th: bool) -> Value {
    let n = r.range(5, if th { 260 } else { 110 });
    let np = *r.pick(&[0u64, 0, 1, 1, 2]);
    let views = if r.below(5) == 0 { 2 } else { 1 };
    let texts: Vec<String> = (0..views).map(|_| { let k = *r.pick(&[0u64, 2, 6]); gen_text(r, k) }).collect();
    let lines = texts[0].matches('\n').count() as u64;
    let back = r.range(1, 6); // how much undoing this scenario does
    let mut ops = Vec::new();
    while (ops.len() as u64) < n {
        let v = r.below(views);
        if np > 0 && r.below(10) == 0 {
            ops.push(gen_plug_act(r, np, false));
            continue;
        }
        match r.below(16) {
            x if x < back => {
                let (a, k) = match r.below(6) {
                    0 => ("undo", 1),
                    1 => ("undo", r.range(1, 30)),
                    2 => ("redo", r.range(1, 30)),
                    _ => (*r.pick(&["undo", "undo", "redo"]), r.range(1, 4)),
                };
                for _ in 0..k {
                    ops.push(json!({"v": v, "m": a, "p": []}));
                }
            }
            6..=8 => {
                let (m, p) = gen_view(r, lines);
                ops.push(json!({"v": v, "m": m, "p": p}));
            }
            9 | 10 => {
                // one typed word
                for _ in 0..r.range(1, 4) {
                    ops.push(json!({"v": v, "m": "insert", "p": {"chars": *r.pick(&["a", "b", "c", "é", "日"])}}));
                }
            }
            _ => {
                let (m, p) = gen_edit(r);
                ops.push(json!({"v": v, "m": m, "p": p}));
            }
        }
    }
    json!({"texts": texts, "ops": ops, "check": *r.pick(&[1u64, 2, 5, 1000]), "open": *r.pick(&["paste", "file"]), "conf": gen_conf(r), "plugs": gen_watchers(r, np), "laws": r.below(3) > 0})
}
pub const C07: Prop = Prop {
    id: "C07",
    gen: gen_c07,
    run: run_ref,
    rule: "a run counts when at least one editing command was performed and the text compared with the history kept by the reference",
    real: REAL,
    stub: &["kernel: scheduler, futex, clock, pipes, processes, file system, inotify (virtual)", "front-end (simulated: line cache, width measurement)", "plugin processes (scripted; acknowledge at once, late, or when told)"],
    assumptions: ASSUME,
};

// ------------------------------------------------------------ C08
fn gen_c08(r: &mut Rng, th: bool) -> Value {
    let n = r.range(5, if th { 140 } else { 60 });
    let np = r.range(1, 3);
    let views = if r.below(3) == 0 { 2 } else { 1 };
    let texts: Vec<String> = (0..views).map(|_| { let k = *r.pick(&[0u64, 3, 10]); gen_text(r, k) }).collect();
    let lines = texts[0].matches('\n').count() as u64;
    let mut ops = Vec::new();
    for _ in 0..n {
        if r.below(5) == 0 {
            ops.push(gen_plug_act(r, np, true));
        } else {
            let (m, p) = gen_cmd(r, lines);
            ops.push(json!({"v": r.below(views), "m": m, "p": p}));
        }
    }
    json!({"texts": texts, "ops": ops, "check": *r.pick(&[1u64, 3, 1000, 1000]), "open": *r.pick(&["paste", "file"]), "conf": gen_conf(r), "plugs": gen_watchers(r, np), "save": r.below(2) == 0, "laws": r.below(4) == 0})
}
pub const C08: Prop = Prop {
    id: "C08",
    gen: gen_c08,
    run: run_ref,
    rule: "a run counts when at least one editing command was performed while a plugin was installed, and the result compared with what the reference, which knows no plugins, gives",
    real: REAL,
    stub: C07.stub,
    assumptions: ASSUME,
};
pub const C06: Prop = Prop {
    id: "C06",
    gen: gen_c06,
    run: run_c06,
    rule: "a run counts when at least one editing command was performed and compared",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
