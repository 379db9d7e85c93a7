//! C21: playing a recording repeats what was recorded. Commands are recorded in one view and played in another that
//! has the same text and cursors; the two have to stay the same.
use super::edit::*;
use crate::driver::Prop;
use crate::fe::*;
use crate::plug::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::HashMap;

/// Commands for a recording. Undo and redo take part only where it is plain what they undo.
fn gen_seg(r: &mut Rng, lines: u64, n: u64) -> Value {
    gen_seg_after(r, lines, n, &json!([]))
}
fn gen_seg_after(r: &mut Rng, lines: u64, n: u64, before: &Value) -> Value {
    // a search goes on in the background, so what depends on its result has to come later
    let mut searching = before.as_array().unwrap().iter().any(|c| c["m"] == "find");
    let mut v: Vec<Value> = Vec::new();
    let pos = |r: &mut Rng| json!({"line": r.below(lines + 1), "col": r.below(9), "ty": "point_select"});
    let low = *r.pick(&[0u64, 3]);
    while (v.len() as u64) < n {
        match low + r.below(24 - low) {
            0 | 1 => {
                // a typed word that is taken back, perhaps for a while
                v.push(json!({"m": "gesture", "p": pos(r)}));
                for _ in 0..r.range(1, 4) {
                    v.push(json!({"m": "insert", "p": {"chars": *r.pick(&["a", "é", "x y", "(", "\n"])}}));
                }
                for i in 0..r.range(1, 4) {
                    v.push(json!({"m": if i % 2 == 0 { "undo" } else { "redo" }, "p": []}));
                }
                v.push(json!({"m": "gesture", "p": pos(r)}));
            }
            2 => {
                // typing over a selection, with brackets
                v.push(json!({"m": *r.pick(&["move_word_right_and_modify_selection", "move_right_and_modify_selection", "select_all", "selection_into_lines"]), "p": []}));
                for _ in 0..r.range(1, 4) {
                    v.push(json!({"m": "insert", "p": {"chars": *r.pick(&["(", "[", "{", "\"", "a", ")", "q"])}}));
                }
            }
            3 => {
                searching = true;
                v.push(json!({"m": "find", "p": {"chars": *r.pick(&["a", "b", "ab", "\n", "é"]), "case_sensitive": r.below(2) == 0, "regex": false, "whole_words": false}}));
            }
            4 | 5 if searching => {}
            4 => v.push(json!({"m": *r.pick(&["find_next", "find_previous"]), "p": {"wrap_around": r.below(2) == 0, "allow_same": r.below(2) == 0, "modify_selection": *r.pick(&["none", "set", "add", "add_removing_current"])}})),
            5 => v.push(json!({"m": *r.pick(&["find_all", "replace_next", "replace_all", "selection_for_replace"]), "p": []})),
            6 => v.push(json!({"m": "replace", "p": {"chars": gen_insert(r)}})),
            7 => v.push(json!({"m": "cut", "p": []})),
            8..=11 => {
                // one command several times
                let (m, p) = gen_cmd(r, lines);
                if m != "undo" && m != "redo" && (low == 0 || m != "insert") {
                    for _ in 0..r.range(1, 4) {
                        v.push(json!({"m": m, "p": p}));
                    }
                }
            }
            _ => {
                let (m, p) = gen_cmd(r, lines);
                if m != "undo" && m != "redo" {
                    v.push(json!({"m": m, "p": p}));
                }
            }
        }
    }
    json!(v)
}
fn gen(r: &mut Rng, th: bool) -> Value {
    let k = *r.pick(&[0u64, 3, 10, 30]);
    let text = gen_text(r, k);
    let lines = text.matches('\n').count() as u64;
    let np = *r.pick(&[0u64, 0, 1, 2]);
    let name = |r: &mut Rng| *r.pick(&["a", "b", "", "é c"]);
    let n = r.range(1, if th { 16 } else { 8 });
    let mut ops = Vec::new();
    for _ in 0..n {
        let at = json!([r.below(lines + 2), r.below(12)]);
        let size = *r.pick(&[2u64, 6, 14]);
        let first = gen_seg(r, lines, 3);
        let more = gen_seg_after(r, lines, 3, &first);
        ops.push(match r.below(14) {
            0..=4 => json!({"k": "rec", "n": name(r), "stop": *r.pick(&["same", "none"]), "cmds": gen_seg(r, lines, size), "undo": r.below(2) == 0, "at": at, "type": r.below(2) == 0}),
            5 | 6 => json!({"k": "play", "n": name(r), "undo": r.below(2) == 0, "at": at, "times": r.range(1, 3)}),
            7 => json!({"k": "clear", "n": name(r)}),
            8 => json!({"k": "drop", "n": name(r), "n2": name(r), "cmds": gen_seg(r, lines, 3), "at": at}),
            9 => json!({"k": "refuse", "n": name(r), "cmds": first, "more": more, "at": at}),
            10 => json!({"k": "conf", "c": gen_conf(r)}),
            11 if np > 0 => json!({"k": "plug", "act": gen_plug_act(r, np, false)}),
            _ => json!({"k": "cmds", "cmds": gen_seg(r, lines, 3)}),
        });
    }
    json!({"text": text, "ops": ops, "conf": gen_conf(r), "plugs": gen_watchers(r, np), "wrap": r.below(4) == 0})
}
struct W {
    fe: Fe,
    /// Where commands are recorded; where they are played.
    a: String,
    b: String,
    /// Another view, to fill the kill ring.
    c: String,
}
impl W {
    fn cmd(&self, v: &str, c: &Value) {
        let m = c["m"].as_str().unwrap();
        if is_request(m) {
            let _ = self.fe.edit_request(v, m, c["p"].clone());
        } else {
            self.fe.edit(v, m, c["p"].clone());
        }
    }
    fn toggle(&self, n: Value) {
        self.fe.edit(&self.a, "toggle_recording", json!({ "recording_name": n }));
    }
    fn play(&self, v: &str, n: &Value) {
        self.fe.edit(v, "play_recording", json!({ "recording_name": n }));
    }
    /// The same cursor in both views, and a known kill ring.
    fn line_up(&self, at: &Value) {
        self.fe.edit(&self.c, "gesture", json!({"line": 0, "col": 0, "ty": "point_select"}));
        self.fe.edit(&self.c, "delete_to_end_of_paragraph", json!([]));
        self.fe.edit(&self.c, "insert", json!({"chars": "killed"}));
        for v in &[&self.a, &self.b] {
            self.fe.edit(v, "gesture", json!({"line": at[0], "col": at[1], "ty": "point_select"}));
        }
    }
    fn text(&self, v: &str) -> String {
        self.fe.settle();
        self.fe.check_alive();
        self.fe.contents(v).unwrap_or_default()
    }
    fn same(&self, what: &str) -> String {
        let (a, b) = (self.text(&self.a), self.text(&self.b));
        if a != b {
            violation!("played", "{}: the text is {} where it was done by hand and {} where it was played", what, short(&a), short(&b));
        }
        let (m, n) = (self.fe.mirror(&self.a), self.fe.mirror(&self.b));
        for (i, (l, k)) in m.lines.iter().zip(&n.lines).enumerate() {
            if let (Some(l), Some(k)) = (l, k) {
                if l.cursor != k.cursor {
                    violation!("played-cursor", "{}: on line {} the cursors are {:?} where it was done by hand and {:?} where it was played", what, i, l.cursor, k.cursor);
                }
            }
        }
        sig(crate::driver::hash(a.as_bytes()));
        a
    }
    /// One undo takes the playback back.
    fn undone(&self, what: &str, before: &str) {
        let after = self.text(&self.b);
        if before == after {
            return;
        }
        self.fe.edit(&self.b, "undo", json!([]));
        let u = self.text(&self.b);
        if u != before {
            violation!("undo-playback", "{}: one undo of the playback gives {} and not {}", what, short(&u), short(before));
        }
        self.fe.edit(&self.b, "redo", json!([]));
        let u = self.text(&self.b);
        if u != after {
            violation!("redo-playback", "{}: redo of the playback gives {} and not {}", what, short(&u), short(&after));
        }
        note("undone", 1);
    }
}
fn run(sc: &Value) {
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    let fe = if sc["plugs"].as_array().map_or(true, |p| p.is_empty()) {
        Fe::start(Start::default())
    } else {
        install_watchers(&plugs, sc);
        Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() })
    };
    fe.notify("modify_user_config", json!({"domain": "general", "changes": sc["conf"]}));
    let t = sc["text"].as_str().unwrap();
    let mut vs = Vec::new();
    for (f, t) in &[("a", t), ("b", t), ("c", "killed\n")] {
        let p = format!("/w/{}", f);
        vos::h_write(&p, t.as_bytes());
        vs.push(fe.new_view(Some(&p)));
    }
    let w = W { fe, a: vs[0].clone(), b: vs[1].clone(), c: vs[2].clone() };
    w.fe.settle();
    for p in plugs.all() {
        eventually_in(30 * SEC, 20 * MS, || p.view(&w.b).is_some());
        p.release();
        if let Some(pv) = p.view(&w.b).filter(|v| v.hist.len() == 1) {
            p.know(&w.b, pv.rev, t);
        }
    }
    let mut known: HashMap<String, Vec<Value>> = HashMap::new();
    let list = |v: &Value| v.as_array().unwrap().clone();
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {}", op);
        let what = format!("op {} ({})", i, op["k"].as_str().unwrap());
        let n = op["n"].as_str().unwrap_or("").to_string();
        match op["k"].as_str().unwrap() {
            "cmds" => {
                for c in list(&op["cmds"]).iter().filter(|c| c["m"] != "undo" && c["m"] != "redo") {
                    w.cmd(&w.a, c);
                    w.cmd(&w.b, c);
                }
                w.fe.settle();
            }
            "conf" => w.fe.notify("modify_user_config", json!({"domain": "general", "changes": op["c"]})),
            "plug" => {
                act_plugs(&w.fe, &plugs, &op["act"], &vs);
            }
            "clear" => {
                w.fe.edit(&w.a, "clear_recording", json!({ "recording_name": n }));
                known.remove(&n);
            }
            "rec" => {
                w.line_up(&op["at"]);
                let before = w.same(&what);
                if op["type"] == true {
                    // what was typed before is not part of the recording, or of its undo step
                    w.cmd(&w.a, &json!({"m": "insert", "p": {"chars": "t"}}));
                    w.cmd(&w.b, &json!({"m": "insert", "p": {"chars": "t"}}));
                    w.line_up(&op["at"]);
                }
                let before = if op["type"] == true { w.same(&what) } else { before };
                w.toggle(json!(n));
                let cmds = list(&op["cmds"]);
                for c in &cmds {
                    w.cmd(&w.a, c);
                }
                w.toggle(if op["stop"] == "same" { json!(n) } else { Value::Null });
                known.insert(n.clone(), cmds);
                w.fe.edit(&w.c, "gesture", json!({"line": 0, "col": 0, "ty": "point_select"}));
                w.fe.edit(&w.c, "delete_to_end_of_paragraph", json!([]));
                w.fe.edit(&w.c, "insert", json!({"chars": "killed"}));
                w.play(&w.b, &json!(n));
                w.same(&what);
                note("nontrivial", 1);
                if op["undo"] == true {
                    w.undone(&what, &before);
                }
                // what is typed next is a step of its own
                w.line_up(&op["at"]);
                let now = w.same(&what);
                for v in &[&w.a, &w.b] {
                    w.fe.edit(v, "insert", json!({"chars": "n"}));
                    w.fe.edit(v, "undo", json!([]));
                }
                let u = w.text(&w.b);
                if u != now {
                    violation!("undo-after", "{}: undoing what was typed after a playback gives {} and not {}", what, short(&u), short(&now));
                }
            }
            "play" => {
                for _ in 0..op["times"].as_u64().unwrap() {
                    w.line_up(&op["at"]);
                    let before = w.same(&what);
                    // Inserts that follow each other are recorded as one, if that made no difference then;
                    // elsewhere they could have surrounded a selection.
                    let merged = |c: &[Value]| c.windows(2).any(|w| w[0]["m"] == "insert" && w[1]["m"] == "insert");
                    match known.get(&n) {
                        Some(cmds) if merged(cmds) => {}
                        Some(cmds) => {
                            for c in cmds {
                                w.cmd(&w.a, c);
                            }
                            w.fe.edit(&w.c, "gesture", json!({"line": 0, "col": 0, "ty": "point_select"}));
                            w.fe.edit(&w.c, "delete_to_end_of_paragraph", json!([]));
                            w.fe.edit(&w.c, "insert", json!({"chars": "killed"}));
                            w.play(&w.b, &json!(n));
                            w.same(&what);
                            note("nontrivial", 1);
                            if op["undo"] == true {
                                w.undone(&what, &before);
                            }
                        }
                        None => {
                            // nothing to play: nothing happens, to the history of edits either
                            w.cmd(&w.b, &json!({"m": "insert", "p": {"chars": "u"}}));
                            let with = w.text(&w.b);
                            w.cmd(&w.b, &json!({"m": "undo", "p": []}));
                            w.play(&w.b, &json!(n));
                            let t = w.text(&w.b);
                            if t != before {
                                violation!("played-nothing", "{}: playing a recording that does not exist gives {} from {}", what, short(&t), short(&before));
                            }
                            w.cmd(&w.b, &json!({"m": "redo", "p": []}));
                            let t = w.text(&w.b);
                            if t != with {
                                violation!("played-nothing", "{}: after playing a recording that does not exist, redo gives {} and not {}", what, short(&t), short(&with));
                            }
                            w.play(&w.b, &json!(n));
                            w.cmd(&w.b, &json!({"m": "undo", "p": []}));
                            let t = w.text(&w.b);
                            if t != before {
                                violation!("played-nothing", "{}: after playing a recording that does not exist, undo gives {} and not {}", what, short(&t), short(&before));
                            }
                        }
                    }
                    w.line_up(&op["at"]);
                }
            }
            "drop" => {
                // another name while recording: what was recorded so far is thrown away
                let n2 = op["n2"].as_str().unwrap().to_string();
                if n2 != n {
                    w.line_up(&op["at"]);
                    w.toggle(json!(n));
                    for c in list(&op["cmds"]).iter().filter(|c| c["m"] != "undo" && c["m"] != "redo") {
                        w.cmd(&w.a, c);
                        w.cmd(&w.b, c);
                    }
                    w.toggle(json!(n2));
                    w.toggle(json!(n2));
                    known.insert(n2.clone(), vec![]);
                    let before = w.same(&what);
                    w.play(&w.b, &json!(n2));
                    let t = w.text(&w.b);
                    if t != before {
                        violation!("played-dropped", "{}: events of a recording that was thrown away were played: {} from {}", what, short(&t), short(&before));
                    }
                }
            }
            _ => {
                // a recording cannot be played while it is being made
                w.line_up(&op["at"]);
                w.same(&what);
                w.toggle(json!(n));
                let mut cmds = list(&op["cmds"]);
                for c in &cmds {
                    w.cmd(&w.a, c);
                }
                let before = w.text(&w.b);
                w.play(&w.b, &json!(n));
                let t = w.text(&w.b);
                if t != before {
                    violation!("played-active", "{}: a recording was played while it was being made: {} from {}", what, short(&t), short(&before));
                }
                for c in list(&op["more"]) {
                    w.cmd(&w.a, &c);
                    cmds.push(c);
                }
                w.toggle(Value::Null);
                known.insert(n.clone(), cmds);
                w.fe.edit(&w.c, "gesture", json!({"line": 0, "col": 0, "ty": "point_select"}));
                w.fe.edit(&w.c, "delete_to_end_of_paragraph", json!([]));
                w.fe.edit(&w.c, "insert", json!({"chars": "killed"}));
                w.play(&w.b, &json!(n));
                w.same(&what);
                note("nontrivial", 1);
            }
        }
    }
    w.line_up(&json!([0, 0]));
    let text = w.same("at the end");
    let m = w.fe.mirror(&w.b);
    check_mirror("at the end", &w.b, &m, &text, None);
    // a watching plugin was told of the playback
    for p in plugs.all() {
        p.set_ack(Ack::Now);
        let mut last = String::new();
        let ok = eventually_in(30 * SEC, 20 * MS, || {
            p.release();
            match (p.dead(), p.view(&w.b)) {
                (true, _) | (_, None) => true,
                (_, Some(v)) => {
                    last = format!("{:?}", v.text.as_ref().map(|t| short(t)));
                    v.len == text.len() && v.text.map_or(true, |t| t == text)
                }
            }
        });
        if !ok {
            violation!("played-plugin", "a plugin has {} for {} after playing", last, short(&text));
        }
    }
}
pub const C21: Prop = Prop {
    id: "C21",
    gen,
    run,
    rule: "a run counts when a recording was played and the result compared with doing the same by hand",
    real: REAL,
    stub: &["kernel: scheduler, futex, clock, pipes, processes, file system, inotify (virtual)", "front-end (simulated: line cache, width measurement)", "plugin processes (scripted; acknowledge at once, late, or when told)"],
    assumptions: ASSUME,
};
