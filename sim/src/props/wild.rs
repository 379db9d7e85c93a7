//! Anything the front-end may send (C27), and views coming and going at any time (C26).
use crate::driver::Prop;
use crate::fe::*;
use crate::plug::*;
use crate::props::edit::*;
use crate::props::view::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};

/// A number that may be anything a message can carry as an unsigned integer.
fn num(r: &mut Rng, lines: u64) -> u64 {
    match r.below(14) {
        0..=4 => r.below(lines + 2),
        5 => 0,
        6 => 1,
        7 => lines,
        8 => 1_000_000,
        9 => *r.pick(&[(1u64 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) - 1]),
        10 => 1 << 53,
        11 => i64::MAX as u64,
        12 => u64::MAX - r.below(3),
        _ => r.below(200),
    }
}
fn inum(r: &mut Rng, lines: u64) -> i64 {
    match r.below(8) {
        0 => -1,
        1 => -(r.below(50) as i64),
        2 => i64::MIN + r.below(2) as i64,
        3 => *r.pick(&[i64::MAX, i64::MAX - 1, i64::MAX / 2, -(1i64 << 32)]),
        _ => {
            let n = num(r, lines);
            n.min(i64::MAX as u64) as i64
        }
    }
}
fn text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => String::new(),
        1 => "\r".into(),
        2 => "\u{0}".into(),
        3 => "\u{feff}x".into(),
        4 => "e\u{301}\u{301}\u{200d}\u{fe0f}".into(),
        5 => "\u{1b}[31m\u{7}\u{8}".into(),
        6 => "\u{2028}\u{85}\u{c}\u{b}".into(),
        7 => "x".repeat(r.range(1, 3000) as usize),
        8 => "\n".repeat(r.range(1, 40) as usize),
        9 => "a\r\nb\r\n".into(),
        10 => "\u{1f1e9}\u{1f1ea}\u{1f468}\u{200d}\u{1f469}".into(),
        11 => "\u{10ffff}\u{e000}".into(),
        12 => "99999999999999999999999 -9223372036854775808 9223372036854775807".into(),
        _ => gen_insert(r),
    }
}
fn query(r: &mut Rng) -> Value {
    let mut q = gen_query(r);
    if r.below(3) == 0 {
        q["chars"] = json!(match r.below(8) {
            0 => "(((".into(),
            1 => "a{1000}{1000}".into(),
            2 => "(?P<n>".into(),
            3 => "\\".into(),
            4 => "[z-a]".into(),
            5 => "(a*)*$".into(),
            6 => "\\p{Foo}".into(),
            _ => text(r),
        });
    }
    q
}
fn size(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.4, 50.0, 300.0, 1e9, -1e9, 1e18, 1e300, -1e300, 5e-324])
}
const GRAN: &[&str] = &["point", "word", "line"];
fn gesture(r: &mut Rng) -> Value {
    match r.below(8) {
        0..=2 => json!({"select": {"granularity": *r.pick(GRAN), "multi": r.below(2) == 0}}),
        3 => json!({"select_extend": {"granularity": *r.pick(GRAN)}}),
        4 => json!("drag"),
        _ => json!(*r.pick(&["point_select", "toggle_sel", "range_select", "line_select", "word_select", "multi_line_select", "multi_word_select"])),
    }
}
const PLAIN: &[&str] = &[
    "delete_forward", "delete_backward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph", "delete_to_beginning_of_line", "insert_newline", "insert_tab", "yank", "transpose", "undo", "redo", "uppercase", "lowercase",
    "capitalize", "reindent", "indent", "outdent", "duplicate_line", "increase_number", "decrease_number", "debug_toggle_comment", "replace_next", "replace_all", "cut",
];
const LOOK: &[&str] = &[
    "move_up", "move_up_and_modify_selection", "move_down", "move_down_and_modify_selection", "move_left", "move_backward", "move_left_and_modify_selection", "move_right", "move_forward", "move_right_and_modify_selection", "move_word_left",
    "move_word_left_and_modify_selection", "move_word_right", "move_word_right_and_modify_selection", "move_to_beginning_of_paragraph", "move_to_beginning_of_paragraph_and_modify_selection", "move_to_end_of_paragraph",
    "move_to_end_of_paragraph_and_modify_selection", "move_to_left_end_of_line", "move_to_left_end_of_line_and_modify_selection", "move_to_right_end_of_line", "move_to_right_end_of_line_and_modify_selection", "move_to_beginning_of_document",
    "move_to_beginning_of_document_and_modify_selection", "move_to_end_of_document", "move_to_end_of_document_and_modify_selection", "scroll_page_up", "page_up_and_modify_selection", "scroll_page_down", "page_down_and_modify_selection",
    "select_all", "add_selection_above", "add_selection_below", "find_all", "debug_rewrap", "debug_wrap_width", "selection_for_replace", "selection_into_lines", "collapse_selections", "copy",
];
/// One edit command with any arguments; the last part says whether it may change the text.
fn command(r: &mut Rng, lines: u64) -> (String, Value, bool) {
    let s = |x: &str| x.to_string();
    match r.below(26) {
        0..=3 => (s(*r.pick(PLAIN)), json!([]), true),
        4..=6 => (s(*r.pick(LOOK)), json!([]), false),
        7 | 8 => (s(*r.pick(&["insert", "paste"])), json!({ "chars": text(r) }), true),
        9 => (s("scroll"), json!([inum(r, lines), inum(r, lines)]), false),
        10 => (s("request_lines"), json!([inum(r, lines), inum(r, lines)]), false),
        11 => (s("resize"), json!({"width": size(r), "height": size(r)}), false),
        12 => (s("goto_line"), json!({ "line": num(r, lines) }), false),
        13 | 14 => {
            let mut p = vec![num(r, lines), num(r, 20), *r.pick(&[0u64, 2, 8, 10, 4, u64::MAX])];
            if r.below(2) == 0 {
                p.push(num(r, 3));
            }
            (s(*r.pick(&["click", "drag"])), json!(p), false)
        }
        15 | 16 => (s("gesture"), json!({"line": num(r, lines), "col": num(r, 20), "ty": gesture(r)}), false),
        17 => (s("find"), query(r), false),
        18 => {
            let n = r.below(4);
            let q: Vec<Value> = (0..n)
                .map(|_| {
                    let mut q = query(r);
                    q["id"] = match r.below(4) {
                        0 => Value::Null,
                        1 => json!(num(r, 5)),
                        _ => json!(r.below(5)),
                    };
                    q
                })
                .collect();
            (s("multi_find"), json!({ "queries": q }), false)
        }
        19 => (s(*r.pick(&["find_next", "find_previous"])), json!({"wrap_around": r.below(2) == 0, "allow_same": r.below(2) == 0, "modify_selection": *r.pick(&["none", "set", "add", "add_removing_current"])}), false),
        20 => (s("highlight_find"), json!({"visible": r.below(2) == 0}), false),
        21 => (s("selection_for_find"), json!({"case_sensitive": r.below(2) == 0}), false),
        22 => (s("replace"), json!({"chars": text(r), "preserve_case": r.below(2) == 0}), false),
        23 => {
            let pos = if r.below(3) == 0 { Value::Null } else { json!({"line": num(r, lines), "column": num(r, 20)}) };
            (s("request_hover"), json!({"request_id": num(r, 3), "position": pos}), false)
        }
        24 => (s("toggle_recording"), json!({"recording_name": if r.below(3) == 0 { Value::Null } else { json!(*r.pick(&["a", "b", ""])) }}), false),
        _ => {
            if r.below(4) == 0 {
                (s("clear_recording"), json!({"recording_name": *r.pick(&["a", "b", "", "zz"])}), false)
            } else {
                (s("play_recording"), json!({"recording_name": *r.pick(&["a", "a", "b", "", "zz"])}), true)
            }
        }
    }
}
fn any(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::Null,
        1 => json!(r.below(2) == 0),
        2 => json!(inum(r, 10)),
        3 => json!(size(r)),
        4 => json!(text(r)),
        5 => json!([1, "x", null]),
        6 => json!({"a": {"b": []}}),
        _ => json!(*r.pick(&["\n", "\r\n", "\t", "    "])),
    }
}
fn config(r: &mut Rng) -> Value {
    let mut c = json!({});
    let n = r.range(1, 4);
    for _ in 0..n {
        let k = *r.pick(&["tab_size", "line_ending", "translate_tabs_to_spaces", "use_tab_stops", "font_face", "font_size", "auto_indent", "scroll_past_end", "wrap_width", "word_wrap", "autodetect_whitespace", "surrounding_pairs", "save_with_newline", "plugin_search_path", "nosuchkey", ""]);
        c[k] = match r.below(3) {
            0 => any(r),
            1 => Value::Null,
            _ => match k {
                "tab_size" => json!(*r.pick(&[0u64, 1, 2, 4, 8, 40])),
                "wrap_width" => json!(*r.pick(&[0u64, 1, 2, 20, 1000, 1 << 40])),
                "line_ending" => json!(*r.pick(&["\n", "\r\n", "\r", "", "\u{2028}"])),
                "font_size" => json!(size(r)),
                "surrounding_pairs" => json!([["(", ")"], ["", ""], ["a", ""]]),
                "plugin_search_path" => json!(["/nosuch", ""]),
                _ => json!(r.below(2) == 0),
            },
        };
    }
    c
}
const PATHS: &[&str] = &["", "/", "/w", "/w/", "/w/none/x", "/w/new0", "/w/new1.txt", "rel", "../x", ".", "/w/f0", "/w/f0/x", "/w/nul\u{0}l", "/w/a\nb", "/w/n\u{e9}", "~", "~/x", "/w/bin", "/w/./f0", "//w//f0"];
const VIEWS: &[&str] = &["view-id-1", "view-id-2", "view-id-5000", "view-id-18446744073709551615", "view-id-18446744073709551616", "view-id-", "x", "", "view-id--1", "buffer-id-1"];
fn gen_op(r: &mut Rng, views: u64, lines: u64) -> Value {
    let mut o = match r.below(30) {
        0..=16 => {
            let (m, p, e) = command(r, lines);
            json!({"m": m, "p": p, "e": e})
        }
        17 => {
            let (m, p, _) = command(r, lines);
            let m2 = json!({"view_id": *r.pick(&VIEWS[2..4]), "method": m, "params": p});
            json!({"core": "edit", "p": m2, "req": is_request(&m)})
        }
        18 => json!({"core": "new_view", "req": true, "p": if r.below(3) == 0 { json!({}) } else { json!({"file_path": *r.pick(PATHS)}) }}),
        19 => json!({"core": "save", "path": *r.pick(PATHS), "odd": true}),
        20 => json!({"core": "set_theme", "p": {"theme_name": text(r)}}),
        21 => json!({"core": "set_language", "lang": *r.pick(&["Rust", "nosuch", "", "Plain Text", "\u{0}"]), "w": true}),
        22 | 23 => {
            let d = match r.below(6) {
                0 | 1 => json!("general"),
                2 => json!({"syntax": *r.pick(&["Rust", "nosuch", ""])}),
                3 => json!({"user_override": *r.pick(&VIEWS[..4])}),
                _ => json!("own"),
            };
            json!({"core": "modify_user_config", "domain": d, "changes": config(r)})
        }
        24 => json!({"core": "tracing_config", "p": {"enabled": r.below(2) == 0}}),
        25 => json!({"core": "save_trace", "p": {"destination": *r.pick(&["/w/trace", "/", "", "/w/none/t"]), "frontend_samples": any(r)}}),
        26 => json!({"core": *r.pick(&["get_config", "debug_get_contents"]), "req": true, "p": {"view_id": *r.pick(&VIEWS[..4])}}),
        27 => {
            let v = if r.below(3) == 0 { json!(*r.pick(&VIEWS[2..4])) } else { json!("own") };
            match r.below(4) {
                0 => json!({"core": "plugin", "pv": v, "p": {"command": "start", "plugin_name": *r.pick(&["w", "w", "nosuch", "", "syntect"])}}),
                1 => json!({"core": "plugin", "pv": v, "p": {"command": "stop", "plugin_name": *r.pick(&["w", "w", "nosuch", ""])}}),
                _ => json!({"core": "plugin", "pv": v, "p": {"command": "plugin_rpc", "receiver": *r.pick(&["w", "nosuch", ""]), "rpc": {"method": *r.pick(&["custom", "", "update"]), "params": any(r), "rpc_type": *r.pick(&["notification", "request"])}}}),
            }
        }
        28 => json!({"core": "close_view", "p": {"view_id": *r.pick(&VIEWS[2..4])}}),
        _ => match r.below(2) {
            0 => json!({"core": "close_view", "w": true, "last": true}),
            _ => json!({"pause": r.below(40)}),
        },
    };
    o["v"] = json!(r.below(views));
    o["check"] = json!(r.below(6) == 0);
    o
}
fn gen_c27(r: &mut Rng, th: bool) -> Value {
    let views = *r.pick(&[1u64, 1, 2]);
    let texts: Vec<String> = (0..views)
        .map(|_| {
            let mut t = gen_big(r, 40);
            if r.below(3) == 0 {
                t.push_str(&text(r));
            }
            t
        })
        .collect();
    let lines = texts[0].matches('\n').count() as u64;
    let early = r.below(8) == 0; // tracing may be enabled before the start
    let n = r.range(2, if th { 70 } else { 30 });
    let ops: Vec<Value> = (0..n).map(|_| gen_op(r, views, lines)).collect();
    json!({"texts": texts, "conf": gen_conf(r), "early": early, "plugin": r.below(2), "ops": ops})
}
/// Sends the message an op stands for; the answer's id if it is a request.
fn send(fe: &Fe, v: &str, op: &Value) -> Option<u64> {
    if let Some(c) = op["core"].as_str() {
        let mut p = if op["p"].is_object() { op["p"].clone() } else { json!({}) };
        if op["w"] == true {
            p["view_id"] = json!(v);
        }
        match c {
            "save" => {
                p = json!({"view_id": v, "file_path": op["path"]});
            }
            "set_language" => p["language_id"] = op["lang"].clone(),
            "modify_user_config" => {
                p = json!({"domain": if op["domain"] == "own" { json!({ "user_override": v }) } else { op["domain"].clone() }, "changes": op["changes"]});
            }
            "plugin" => p["view_id"] = if op["pv"] == "own" { json!(v) } else { op["pv"].clone() },
            _ => (),
        }
        if op["req"] == true {
            Some(fe.send(c, p))
        } else {
            fe.notify(c, p);
            None
        }
    } else {
        let m = op["m"].as_str().unwrap();
        if is_request(m) {
            Some(fe.send("edit", json!({"view_id": v, "method": m, "params": op["p"]})))
        } else {
            fe.edit(v, m, op["p"].clone());
            None
        }
    }
}
fn run_c27(sc: &Value) {
    vos::h_mkdirs("/w");
    vos::h_mkdirs("/cfg");
    vos::h_write("/w/bin", b"\xff\xfe\x00x");
    let plugs = Plugs::new();
    if sc["plugin"] == 1 {
        plugs.install("/cfg", Spec::new("w"));
    }
    let fe = Fe::start_raw(65536, false);
    if sc["early"] == true {
        fe.notify("tracing_config", json!({"enabled": true}));
    }
    fe.st.with(|s| s.plugins_around = true);
    fe.notify("client_started", json!({"config_dir": "/cfg"}));
    let mut vs = open_all(&fe, sc);
    let mut hl = vec![false; vs.len()];
    let mut known: Vec<Option<String>> = vs.iter().map(|_| None).collect();
    let mut early_views: Vec<String> = vs.clone();
    let mut saved: Vec<(String, String)> = Vec::new();
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let x = op["v"].as_u64().unwrap() as usize;
        if let Some(ms) = op["pause"].as_u64() {
            sleep(ms * MS);
            continue;
        }
        let v = vs[x].clone();
        slog!("op {} {} {}", i, v, op);
        let what = format!("after op {} {}", i, op);
        if op["core"] == "save" {
            // not onto the file of another view
            if early_views.iter().enumerate().any(|(y, _)| y != x && op["path"].as_str().map_or(false, |p| p.ends_with(&format!("f{}", y)))) {
                continue;
            }
            let p = op["path"].as_str().unwrap_or("").to_string();
            if saved.iter().any(|(w, q)| *q == p && *w != v) {
                continue;
            }
            saved.push((v.clone(), p));
        }
        if op["m"].as_str().map_or(false, |m| too_big(&fe, &v, m)) {
            continue;
        }
        note("nontrivial", 1);
        if let Some(id) = send(&fe, &v, op) {
            let r = fe.wait(id);
            if op["core"] == "new_view" {
                if let Ok(Value::String(s)) = &r {
                    if early_views.contains(s) {
                        violation!("reused-id", "{}: the new view is called {}, which another view was called before", what, s);
                    }
                    early_views.push(s.clone());
                    fe.notify("close_view", json!({ "view_id": s }));
                }
            }
        }
        if op["m"] == "highlight_find" {
            hl[x] = op["p"]["visible"].as_bool().unwrap();
        }
        if op["last"] == true {
            let nv = fe.new_view(None);
            if early_views.contains(&nv) {
                violation!("reused-id", "{}: the new view is called {}, which another view was called before", what, nv);
            }
            early_views.push(nv.clone());
            vs[x] = nv;
            hl[x] = false;
            known[x] = Some(String::new());
            continue;
        }
        // commands which are no edits leave the text alone
        if op["e"] == true {
            known[x] = None;
        }
        if op["check"] == true {
            let m = check_fresh(&what, &fe, &vs[x], hl[x], None);
            known_is(&what, &vs[x], &mut known[x], m.text().unwrap());
        }
        fe.check_alive();
    }
    for x in 0..vs.len() {
        let m = check_fresh("at the end", &fe, &vs[x], hl[x], None);
        let t = m.text().unwrap();
        sig(crate::driver::hash(t.as_bytes()));
        known_is("at the end", &vs[x], &mut known[x], t.clone());
        // still editable
        fe.edit(&vs[x], "move_to_end_of_document", json!([]));
        fe.edit(&vs[x], "collapse_selections", json!([]));
        fe.edit(&vs[x], "insert", json!({"chars": "END"}));
        fe.settle();
        match fe.contents(&vs[x]) {
            Some(u) if u.len() == t.len() + 3 && u.ends_with("END") => (),
            u => violation!("not-editable", "at the end: typing END at the end of {} turned {} into {:?}", vs[x], short(&t), u.map(|u| short(&u))),
        }
        let m = check_fresh("after typing", &fe, &vs[x], hl[x], None);
        let _ = m;
    }
}
fn known_is(what: &str, v: &str, k: &mut Option<String>, t: String) {
    if let Some(k) = k {
        if *k != t {
            violation!("text-changed", "{}: no command edited {} but its text went from {} to {}", what, v, short(k), short(&t));
        }
    }
    *k = Some(t);
}
pub const C27: Prop = Prop {
    id: "C27",
    gen: gen_c27,
    run: run_c27,
    rule: "a run counts when at least one message was sent and the core's state was compared afterwards",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------ C26
/// Editing that does not depend on how lines are wrapped, found or shown.
fn gen_plain(r: &mut Rng) -> (String, Value) {
    match r.below(10) {
        0..=4 => ("insert".into(), json!({ "chars": gen_insert(r) })),
        5 => {
            let k = r.below(4);
            let t = gen_text(r, k);
            ("paste".into(), json!({ "chars": t }))
        }
        6 => ((*r.pick(&["undo", "redo", "undo"])).into(), json!([])),
        7 => ((*r.pick(&["delete_backward", "delete_forward", "delete_word_backward", "insert_newline", "uppercase", "transpose"])).into(), json!([])),
        _ => {
            let m = *r.pick(&["move_left", "move_right", "move_word_left", "move_word_right", "move_to_beginning_of_document", "move_to_end_of_document", "select_all", "move_left_and_modify_selection", "move_word_right_and_modify_selection"]);
            (m.into(), json!([]))
        }
    }
}
/// Something that leaves work under way for a view.
fn gen_flight(r: &mut Rng, plugs: u64) -> Value {
    match r.below(14) {
        0 | 1 => {
            let (m, p) = gen_plain(r);
            json!({"m": m, "p": p})
        }
        2 => json!({"m": "find", "p": gen_query(r)}),
        3 => json!({"conf": {"word_wrap": r.below(2) == 0, "wrap_width": *r.pick(&[0u64, 5, 30])}, "general": r.below(2) == 0}),
        4 => json!({"m": "resize", "p": {"width": *r.pick(&[5.0, 50.0]), "height": 100.0}}),
        5 => json!({"m": *r.pick(&["request_lines", "scroll"]), "p": [r.below(5), r.below(40)]}),
        6 => json!({"lang": *r.pick(&["Rust", "Plain Text", "nosuch"])}),
        7 => json!({"write": r.below(40)}),
        8 => json!({"save": true}),
        9 => json!({"req": *r.pick(&["cut", "copy", "get_config", "debug_get_contents"])}),
        10 if plugs > 0 => json!({"m": "request_hover", "p": {"request_id": r.below(9), "position": null}}),
        11 | 12 if plugs > 0 => json!({"plug": r.below(plugs), "act": *r.pick(&["edit", "edit", "spans", "status", "read", "hover", "alert", "annotate"])}),
        13 if plugs > 0 => json!({"plugctl": *r.pick(&["start", "stop"]), "plug": r.below(plugs)}),
        _ => json!({"ms": r.below(30)}),
    }
}
fn gen_c26(r: &mut Rng, th: bool) -> Value {
    let np = *r.pick(&[0u64, 0, 1, 1, 2]);
    let n = r.range(3, if th { 60 } else { 26 });
    let slots = r.range(1, 5);
    let big = r.below(3) == 0;
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let s = r.below(slots);
            match r.below(9) {
                0..=2 => {
                    let k = r.below(6);
                    let t = if big { gen_big(r, 120) } else { gen_text(r, k) };
                    json!({"k": "open", "s": s, "path": r.below(4) > 0, "text": t, "keep": r.below(2) == 0, "wait": r.below(3)})
                }
                3..=5 => {
                    let f: Vec<Value> = (0..r.below(5)).map(|_| gen_flight(r, np)).collect();
                    let a: Vec<Value> = (0..r.below(4)).map(|_| gen_flight(r, np)).collect();
                    json!({"k": "close", "s": s, "before": f, "after": a, "barrier": r.below(3) == 0})
                }
                6 | 7 => {
                    let c: Vec<Value> = (0..r.range(1, 5))
                        .map(|_| {
                            let (m, p) = gen_plain(r);
                            json!({"m": m, "p": p})
                        })
                        .collect();
                    json!({"k": "edit", "s": s, "c": c, "check": r.below(4) == 0})
                }
                _ => match r.below(4) {
                    0 if np > 0 => gen_plug_act(r, np, false),
                    1 => json!({"k": "pause", "ms": *r.pick(&[1u64, 10, 60, 200])}),
                    2 => json!({"k": "gen", "c": {"word_wrap": r.below(2) == 0, "font_size": r.below(20)}}),
                    _ => json!({"k": "gone", "f": gen_flight(r, np)}),
                },
            }
        })
        .collect();
    json!({"plugs": gen_watchers(r, np), "slots": slots, "ops": ops})
}
struct Slot {
    v: String,
    md: crate::model::Model,
    cfg: Option<crate::model::Cfg>,
    path: Option<String>,
}
fn fly(fe: &Fe, plugs: &Plugs, v: &str, path: Option<&str>, o: &Value, reqs: &mut Vec<u64>) {
    slog!("  for {}: {}", v, o);
    if let Some(m) = o["m"].as_str() {
        fe.edit(v, m, o["p"].clone());
    } else if o["conf"].is_object() {
        let d = if o["general"] == true { json!("general") } else { json!({ "user_override": v }) };
        fe.notify("modify_user_config", json!({"domain": d, "changes": o["conf"]}));
    } else if o["lang"].is_string() {
        fe.notify("set_language", json!({"view_id": v, "language_id": o["lang"]}));
    } else if let Some(n) = o["write"].as_u64() {
        if let Some(p) = path {
            vos::h_write(p, "written outside\n".repeat(n as usize).as_bytes());
        }
    } else if o["save"] == true {
        if let Some(p) = path {
            fe.notify("save", json!({"view_id": v, "file_path": p}));
        }
    } else if let Some(q) = o["req"].as_str() {
        reqs.push(match q {
            "cut" | "copy" => fe.send("edit", json!({"view_id": v, "method": q, "params": []})),
            _ => fe.send(q, json!({ "view_id": v })),
        });
    } else if let Some(c) = o["plugctl"].as_str() {
        fe.notify("plugin", json!({"command": c, "view_id": v, "plugin_name": format!("watch{}", o["plug"])}));
    } else if let Some(n) = o["plug"].as_u64() {
        if let Some(p) = plugs.get(&format!("watch{}", n)) {
            if p.dead() || p.st.with(|s| s.plugin_id.is_none()) {
                return;
            }
            let w = match p.view(v) {
                Some(w) => w,
                None => return,
            };
            match o["act"].as_str().unwrap() {
                "edit" => p.notify("edit", v, json!({"edit": {"rev": w.rev, "delta": delta(w.len, 0, 0, "plugin"), "priority": 5, "after_cursor": false, "author": "x"}})),
                "spans" => {
                    p.notify("add_scopes", v, json!({"scopes": [["a"]]}));
                    p.notify("update_spans", v, json!({"start": 0, "len": w.len, "rev": w.rev, "spans": [{"start": 0, "end": w.len.min(3), "scope_id": 0}]}));
                }
                "annotate" => p.notify("update_annotations", v, json!({"start": 0, "len": w.len, "rev": w.rev, "annotation_type": "x", "spans": []})),
                "status" => p.notify("add_status_item", v, json!({"key": "k", "value": "v", "alignment": "left"})),
                "read" => {
                    p.send("get_data", v, json!({"start": 0, "unit": "utf8", "max_size": 100, "rev": w.rev}));
                    p.send("line_count", v, json!({}));
                }
                "hover" => p.notify("show_hover", v, json!({"request_id": 1, "result": {"Ok": {"content": "x", "range": null}}})),
                _ => p.notify("alert", v, json!({"msg": "hello"})),
            }
        }
    } else if let Some(ms) = o["ms"].as_u64() {
        sleep(ms * MS);
    }
}
fn run_c26(sc: &Value) {
    sim().stall_named = true;
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    install_watchers(&plugs, sc);
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    let mut slots: Vec<Option<Slot>> = (0..sc["slots"].as_u64().unwrap()).map(|_| None).collect();
    let mut ids: Vec<String> = Vec::new();
    let mut gone: Vec<(String, u64)> = Vec::new();
    let mut reqs: Vec<u64> = Vec::new();
    let mut kill = String::new();
    let cfg_of = |fe: &Fe, s: &mut Slot| -> crate::model::Cfg {
        if s.cfg.is_none() {
            fe.settle();
            let mut c = crate::model::Cfg::default();
            c.apply(&fe.mirror(&s.v).config);
            s.cfg = Some(c);
        }
        s.cfg.clone().unwrap()
    };
    for (n, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {} {}", n, short(&op.to_string()));
        let x = op["s"].as_u64().unwrap_or(0) as usize;
        match op["k"].as_str().unwrap() {
            "open" if slots[x].is_none() => {
                let path = if op["path"] == true { Some(format!("/w/p{}", x)) } else { None };
                let mut text = String::new();
                if let Some(p) = &path {
                    // a save that was asked for before is done before
                    let _ = fe.contents("view-id-4444");
                    if op["keep"] == true && vos::h_read(p).is_some() {
                        text = String::from_utf8(vos::h_read(p).unwrap()).unwrap();
                    } else {
                        text = op["text"].as_str().unwrap().into();
                        vos::h_write(p, text.as_bytes());
                    }
                }
                let v = fe.new_view(path.as_deref());
                if ids.contains(&v) {
                    violation!("reused-id", "op {}: the new view is called {}, as was one before", n, v);
                }
                ids.push(v.clone());
                match op["wait"].as_u64().unwrap() {
                    0 => (),
                    1 => sleep(20 * MS),
                    _ => fe.settle(),
                }
                if fe.contents(&v).as_deref() != Some(&text) {
                    violation!("opened", "op {}: {} opened {:?} with {} instead of {}", n, v, path, short(&fe.contents(&v).unwrap_or_default()), short(&text));
                }
                slots[x] = Some(Slot { v, md: crate::model::Model::new(&text), cfg: None, path });
                note("nontrivial", 1);
            }
            "close" if slots[x].is_some() => {
                let s = slots[x].take().unwrap();
                for o in op["before"].as_array().unwrap() {
                    fly(&fe, &plugs, &s.v, s.path.as_deref(), o, &mut reqs);
                }
                fe.notify("close_view", json!({"view_id": s.v}));
                for o in op["after"].as_array().unwrap() {
                    // saving after closing would be a save of a view that is gone: ignored
                    fly(&fe, &plugs, &s.v, s.path.as_deref(), o, &mut reqs);
                }
                if op["barrier"] == true {
                    let r = fe.request("debug_get_contents", json!({"view_id": s.v}));
                    if r.is_ok() {
                        violation!("not-closed", "op {}: {} was closed but the core still answers {:?} for it", n, s.v, r);
                    }
                    gone.push((s.v.clone(), fe.mirror(&s.v).updates as u64));
                }
                note("nontrivial", 1);
            }
            "edit" => {
                if let Some(s) = slots[x].as_mut() {
                    let cfg = cfg_of(&fe, s);
                    for c in op["c"].as_array().unwrap() {
                        s.md.cmd(c["m"].as_str().unwrap(), &c["p"], &cfg, &mut kill);
                        fe.edit(&s.v, c["m"].as_str().unwrap(), c["p"].clone());
                    }
                    if op["check"] == true {
                        check_text(&format!("after op {}", n), &s.v, &fe, &s.md);
                    }
                }
            }
            "pause" => sleep(op["ms"].as_u64().unwrap() * MS),
            "gen" => fe.notify("modify_user_config", json!({"domain": "general", "changes": op["c"]})),
            "gone" => {
                let live: Vec<&String> = slots.iter().flatten().map(|s| &s.v).collect();
                let v = ids.iter().rev().find(|v| !live.contains(v)).cloned().unwrap_or("view-id-4444".into());
                fly(&fe, &plugs, &v, None, &op["f"], &mut reqs);
            }
            "open" | "close" => (),
            _ => {
                act_plugs(&fe, &plugs, op, &[slots.iter().flatten().map(|s| s.v.clone()).next().unwrap_or("view-id-4444".into())]);
            }
        }
        fe.check_alive();
    }
    for id in &reqs {
        let _ = fe.wait(*id);
    }
    for p in plugs.all() {
        p.set_ack(Ack::Now);
        p.release();
    }
    fe.settle();
    for (v, u) in &gone {
        if fe.mirror(v).updates as u64 != *u {
            violation!("update-closed", "the front-end was sent updates of {} after it had been closed", v);
        }
    }
    for (i, s) in slots.iter().enumerate() {
        if let Some(s) = s {
            check_text("at the end", &s.v, &fe, &s.md);
            check_fresh("at the end", &fe, &s.v, true, None);
            sig(crate::driver::hash(s.md.text.as_bytes()));
            // the core still watches the files of the views that are open
            if let (Some(p), true) = (&s.path, fe.mirror(&s.v).pristine) {
                sleep(300 * MS);
                let want = format!("changed from outside {}\n", i);
                vos::h_write(p, want.as_bytes());
                if !eventually_in(20 * SEC, 50 * MS, || fe.contents(&s.v).as_deref() == Some(&want)) {
                    violation!("not-reloaded", "{} shows {:?}, which was changed by another program, but still has {}", s.v, p, short(&fe.contents(&s.v).unwrap_or_default()));
                }
            }
        }
    }
    let v = fe.new_view(None);
    if ids.contains(&v) {
        violation!("reused-id", "the new view is called {}, as was one before", v);
    }
    fe.settle();
}
pub const C26: Prop = Prop {
    id: "C26",
    gen: gen_c26,
    run: run_c26,
    rule: "a run counts when at least one view was opened or closed",
    real: REAL,
    stub: &["kernel: scheduler, futex, clock, pipes, processes, file system, inotify (virtual)", "front-end (simulated: line cache, width measurement)", "plugin processes (scripted)"],
    assumptions: ASSUME,
};
