//! What the front-end is told about a view: the line cache (C05), soft wrap (C19), find (C20).
use crate::driver::Prop;
use crate::fe::*;
use crate::model;
use crate::props::edit::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};

const QUERIES: &[&str] = &["a", "foo", "o", "ba", "x", "alpha", "日本", "é", "it's", "99", " ", "zz", "\n", "r\n", "[a-f]+", "\\w+", "o+", "^", "$", "^f", "\\s", "a.b", "(x)", "l?", "n\\n", "(?s)o.*b", "[", "*", "f(", "É", "ß", "SS", "İ", "👍", "\\b"];
pub fn gen_query(r: &mut Rng) -> Value {
    json!({"chars": *r.pick(QUERIES), "case_sensitive": r.below(2) == 0, "regex": r.below(3) == 0, "whole_words": r.below(4) == 0})
}
pub fn gen_find(r: &mut Rng) -> (String, Value) {
    match r.below(12) {
        0..=2 => ("find".into(), gen_query(r)),
        3 => {
            let n = r.below(3);
            let q: Vec<Value> = (0..n)
                .map(|_| {
                    let mut q = gen_query(r);
                    q["id"] = if r.below(3) == 0 { json!(r.range(1, 4)) } else { Value::Null };
                    q
                })
                .collect();
            ("multi_find".into(), json!({ "queries": q }))
        }
        4 | 5 => {
            ((*r.pick(&["find_next", "find_previous"])).into(), json!({"wrap_around": r.below(2) == 0, "allow_same": r.below(2) == 0, "modify_selection": *r.pick(&["none", "set", "set", "add", "add_removing_current"])}))
        }
        6 => ("find_all".into(), json!([])),
        7 => ("highlight_find".into(), json!({"visible": r.below(4) > 0})),
        8 => ("selection_for_find".into(), json!({"case_sensitive": r.below(2) == 0})),
        9 => ("replace".into(), json!({"chars": *r.pick(&["Q", "", "foo", "日"]), "preserve_case": r.below(3) == 0})),
        10 => ((*r.pick(&["replace_next", "replace_all"])).into(), json!([])),
        _ => ("selection_for_replace".into(), json!([])),
    }
}
/// A command that changes how a view is shown.
pub fn gen_show(r: &mut Rng, lines: u64) -> Value {
    match r.below(8) {
        0 => json!({"m": "resize", "p": {"width": *r.pick(&[3.0f64, 8.0, 20.0, 60.0, 500.0]), "height": 100.0}}),
        1 | 2 => {
            let a = r.below(lines + 3);
            json!({"m": "request_lines", "p": [a, a + r.below(15)]})
        }
        3 | 4 => {
            let a = r.below(lines + 3);
            json!({"m": "scroll", "p": [a, a + r.below(25)]})
        }
        5 | 6 => json!({"k": "conf", "c": gen_wrap(r)}),
        _ => json!({"k": "theme", "n": *r.pick(&["InspiredGitHub", "Solarized (dark)", "base16-ocean.dark", "nosuch"])}),
    }
}
pub fn gen_wrap(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({"word_wrap": true}),
        1 => json!({"word_wrap": false, "wrap_width": *r.pick(&[1u64, 4, 10, 25, 80])}),
        2 => json!({"word_wrap": false, "wrap_width": 0}),
        _ => json!({"wrap_width": *r.pick(&[0u64, 7, 40])}),
    }
}
/// Whether the text has become so long that this command, which may multiply cursors or text, would
/// only make the run slow.
pub fn too_big(fe: &Fe, v: &str, m: &str) -> bool {
    let most = match m {
        "find_all" => 4000,
        "selection_into_lines" | "duplicate_line" | "yank" | "play_recording" => 60_000,
        _ => return false,
    };
    fe.contents(v).map_or(false, |t| t.len() > most)
}
/// Performs one op of a scenario of this module.
pub fn perform(fe: &Fe, v: &str, op: &Value) {
    match op["k"].as_str() {
        Some("conf") => fe.notify("modify_user_config", json!({"domain": if op["user"] == true { json!({"user_override": v}) } else { json!("general") }, "changes": op["c"]})),
        Some("theme") => fe.notify("set_theme", json!({"theme_name": op["n"]})),
        Some("lang") => fe.notify("set_language", json!({"view_id": v, "language_id": op["n"]})),
        Some("pause") => sleep(op["ms"].as_u64().unwrap() * MS),
        _ => {
            let m = op["m"].as_str().unwrap();
            if is_request(m) {
                let _ = fe.edit_request(v, m, op["p"].clone());
            } else {
                fe.edit(v, m, op["p"].clone());
            }
        }
    }
}
fn same_line(what: &str, v: &str, i: usize, a: &Line, b: &Line) {
    if a != b {
        violation!("mirror-stale", "{}: line {} of {} is {:?} in the front-end and is {:?} when the core renders it anew", what, i, v, a, b);
    }
}
/// The front-end's picture of a view is the same as one rendered from scratch, and has all the text.
pub fn check_fresh(what: &str, fe: &Fe, v: &str, hl: bool, on_screen: Option<(usize, usize)>) -> Mirror {
    fe.settle();
    let m1 = fe.mirror(v);
    let text = match fe.contents(v) {
        Some(t) => t,
        None => violation!("no-contents", "{}: the core does not know {}", what, v),
    };
    fe.edit(v, "highlight_find", json!({ "visible": hl }));
    fe.edit(v, "request_lines", json!([0, m1.lines.len() + 3]));
    fe.settle();
    let m2 = fe.mirror(v);
    if let Some(t2) = m2.text() {
        if t2 != text {
            violation!("mirror-text", "{}: the lines of {} put together are {} but its text is {}", what, v, short(&t2), short(&text));
        }
    } else {
        violation!("mirror-missing", "{}: the front-end requested all lines of {} and did not get them all", what, v);
    }
    if m1.lines.len() != m2.lines.len() {
        violation!("mirror-lines", "{}: {} has {} lines in the front-end but {} when rendered anew", what, v, m1.lines.len(), m2.lines.len());
    }
    for (i, l) in m1.lines.iter().enumerate() {
        match l {
            Some(l) => same_line(what, v, i, l, m2.lines[i].as_ref().unwrap()),
            None => {
                if let Some((a, b)) = on_screen {
                    if i >= a && i < b {
                        violation!("mirror-missing", "{}: line {} of {} is on screen ({}..{}) but the front-end does not have it", what, i, v, a, b);
                    }
                }
            }
        }
    }
    // dropping history that plugins had held back may make the core forget which text was the saved one
    let forgot = m1.pristine && fe.st.with(|s| s.plugins_around);
    if m1.pristine != m2.pristine && !forgot {
        violation!("mirror-pristine", "{}: pristine flag of {} changed without an edit", what, v);
    }
    if m1.annotations != m2.annotations {
        violation!("mirror-annotations", "{}: annotations of {} are {:?} in the front-end and {:?} when sent anew", what, v, m1.annotations, m2.annotations);
    }
    // logical line numbers count line breaks
    let mut n = 1;
    let mut cont = false;
    for (i, l) in m2.lines.iter().enumerate() {
        let l = l.as_ref().unwrap();
        let want = if cont { None } else { Some(n) };
        if l.ln != want {
            violation!("mirror-ln", "{}: visual line {} of {} is numbered {:?} instead of {:?}", what, i, v, l.ln, want);
        }
        cont = !l.text.ends_with('\n');
        if !cont {
            n += 1;
        }
        if l.text.trim_end_matches('\n').contains('\n') {
            violation!("mirror-text", "{}: line {} of {} contains a line break: {:?}", what, i, v, l.text);
        }
        let mut at = 0i64;
        for t in l.styles.chunks(3) {
            let s = at + t[0];
            at = s + t[1];
            if s < 0 || t[1] <= 0 || at as usize > l.text.len() {
                violation!("mirror-style", "{}: line {} of {} has a style span {}..{} outside its text {:?}", what, i, v, s, at, l.text);
            }
            if t[2] > 8 && !fe.st.with(|st| st.styles.contains_key(&(t[2] as u64))) {
                violation!("mirror-style", "{}: style {} of {} was never defined", what, t[2], v);
            }
        }
        if l.cursor.windows(2).any(|w| w[0] > w[1]) || l.cursor.iter().any(|c| *c > l.text.len()) {
            violation!("mirror-cursor", "{}: cursors {:?} on line {} of {}", what, l.cursor, i, v);
        }
    }
    // every selection region shows exactly one caret
    m2
}
fn gen_ops(r: &mut Rng, n: u64, views: u64, lines: u64) -> Vec<Value> {
    let mut ops = Vec::new();
    let wf = r.below(4); // taste of this scenario
    for _ in 0..n {
        let mut o = match r.below(10) {
            0 | 1 if wf != 0 => {
                let (m, p) = gen_find(r);
                json!({"m": m, "p": p})
            }
            2 | 3 => gen_show(r, lines),
            4..=6 => {
                let (m, p) = gen_view(r, lines);
                json!({"m": m, "p": p})
            }
            7 if r.below(3) == 0 => json!({"k": "pause", "ms": r.below(20)}),
            _ => {
                let (m, p) = gen_edit(r);
                json!({"m": m, "p": p})
            }
        };
        o["v"] = json!(r.below(views));
        o["check"] = json!(r.below(8) == 0);
        ops.push(o);
    }
    ops
}
pub fn gen_big(r: &mut Rng, max: u64) -> String {
    // several sizes, so that ropes get more than one leaf
    let n = *r.pick(&[0u64, 2, 8, 40, max]);
    let mut s = gen_text(r, n);
    if r.below(12) == 0 {
        let u = s.clone();
        while s.len() < 6000 && u.len() > 20 {
            s.push_str(&u);
        }
    }
    if r.below(20) == 0 {
        s.push_str(&"long line without any break ".repeat(60));
    }
    s
}
fn gen_c05(r: &mut Rng, th: bool) -> Value {
    let views = *r.pick(&[1u64, 1, 2, 3]);
    let texts: Vec<String> = (0..views).map(|_| gen_big(r, 120)).collect();
    let lines = texts[0].matches('\n').count() as u64;
    let n = r.range(3, if th { 90 } else { 40 });
    let mut conf = gen_conf(r);
    if r.below(3) == 0 {
        for (k, x) in gen_wrap(r).as_object().unwrap() {
            conf[k] = x.clone();
        }
    }
    json!({"texts": texts, "ops": gen_ops(r, n, views, lines), "conf": conf})
}
pub fn open_all(fe: &Fe, sc: &Value) -> Vec<String> {
    vos::h_mkdirs("/w");
    fe.notify("modify_user_config", json!({"domain": "general", "changes": sc["conf"]}));
    let mut vs = Vec::new();
    for (i, t) in sc["texts"].as_array().unwrap().iter().enumerate() {
        let p = format!("/w/f{}", i);
        vos::h_write(&p, t.as_str().unwrap().as_bytes());
        vs.push(fe.new_view(Some(&p)));
    }
    vs
}
fn run_c05(sc: &Value) {
    let fe = Fe::start(Start::default());
    let vs = open_all(&fe, sc);
    let mut hl = vec![false; vs.len()];
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let x = op["v"].as_u64().unwrap() as usize;
        slog!("op {} {}", vs[x], op);
        if op["m"].as_str().map_or(false, |m| too_big(&fe, &vs[x], m)) {
            continue;
        }
        perform(&fe, &vs[x], op);
        if op["m"] == "highlight_find" {
            hl[x] = op["p"]["visible"].as_bool().unwrap();
        }
        if op["check"] == true {
            let screen = if op["m"] == "scroll" { Some((op["p"][0].as_u64().unwrap() as usize, op["p"][1].as_u64().unwrap() as usize)) } else { None };
            check_fresh(&format!("after op {} {}", i, op), &fe, &vs[x], hl[x], screen);
        }
        note("nontrivial", 1);
    }
    for (x, v) in vs.iter().enumerate() {
        let m = check_fresh("at the end", &fe, v, hl[x], None);
        sig(crate::driver::hash(m.text().unwrap().as_bytes()));
    }
}
pub const C05: Prop = Prop {
    id: "C05",
    gen: gen_c05,
    run: run_c05,
    rule: "a run counts when at least one command was performed and the front-end's lines were compared",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------ C19
/// Where the visual lines of a text begin, when it is wrapped in one go.
fn wrap_ref(text: &str, width: f64, measure: &dyn Fn(&str) -> f64) -> Vec<usize> {
    let mut words: Vec<(usize, bool)> = xi_unicode::LineBreakIterator::new(text).collect();
    if let Some(l) = words.last_mut() {
        l.1 = text.ends_with('\n');
    }
    let mut starts = vec![0];
    let (mut line, mut pos, mut i) = (0.0f64, 0usize, 0usize);
    while i < words.len() {
        let (end, hard) = words[i];
        let w = measure(&text[pos..end]);
        if !hard {
            if line == 0.0 && w >= width {
                if end == text.len() {
                    break;
                }
                starts.push(end);
                line = 0.0;
                pos = end;
                i += 1;
            } else if line + w > width {
                starts.push(pos);
                line = 0.0;
            } else {
                line += w;
                pos = end;
                i += 1;
            }
        } else if line != 0.0 && line + w > width {
            starts.push(pos);
            line = 0.0;
        } else {
            starts.push(end);
            line = 0.0;
            pos = end;
            i += 1;
        }
    }
    starts
}
fn check_wrap(what: &str, fe: &Fe, v: &str, width: f64, hl: bool) {
    let m = check_fresh(what, fe, v, hl, None);
    let text = m.text().unwrap();
    let starts = if m.config["word_wrap"] == true {
        wrap_ref(&text, width, &|s| (fe.width)(s, 0))
    } else if m.config["wrap_width"].as_u64().unwrap_or(0) > 0 {
        wrap_ref(&text, m.config["wrap_width"].as_u64().unwrap() as f64, &|s| s.chars().count() as f64)
    } else {
        std::iter::once(0).chain(text.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect()
    };
    let mut at = 0;
    for (i, l) in m.lines.iter().enumerate() {
        let want = starts.get(i).copied();
        if want != Some(at) {
            violation!("wrap", "{}: visual line {} of {} begins at offset {} ({:?}) and should begin at {:?}; word_wrap {} wrap_width {} width {}", what, i, v, at, l.as_ref().unwrap().text, want, m.config["word_wrap"], m.config["wrap_width"], width);
        }
        at += l.as_ref().unwrap().text.len();
    }
    if m.lines.len() != starts.len() {
        violation!("wrap", "{}: {} has {} visual lines and should have {}", what, v, m.lines.len(), starts.len());
    }
    note("wrapped-lines", starts.len() as u64);
}
fn gen_long(r: &mut Rng) -> String {
    // enough lines for wrapping to take several batches
    let unit = { gen_text(r, 12) } + "\n" + if r.below(2) == 0 { "some words to wrap in this line\n" } else { "x\n" };
    let mut s = String::new();
    let n = r.range(200, 1500);
    while (s.matches('\n').count() as u64) < n {
        s.push_str(&unit);
    }
    s
}
fn gen_c19(r: &mut Rng, th: bool) -> Value {
    let views = *r.pick(&[1u64, 1, 2]);
    let long = r.below(8) == 0;
    let texts: Vec<String> = (0..views).map(|i| if long && i == 0 { gen_long(r) } else { gen_big(r, 60) }).collect();
    let lines = texts[0].matches('\n').count() as u64;
    let n = if long { r.range(2, 14) } else { r.range(3, if th { 70 } else { 30 }) };
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let mut o = match r.below(14) {
                0 | 1 => json!({"m": "resize", "p": {"width": *r.pick(&[0.0f64, 2.5, 6.0, 13.0, 30.0, 80.0, 400.0]), "height": 100.0}}),
                2 | 3 => json!({"k": "conf", "c": gen_wrap(r), "user": r.below(2) == 0}),
                4 => gen_show(r, lines),
                5 => json!({"k": "pause", "ms": r.below(20)}),
                6 | 7 => {
                    let (m, p) = gen_view(r, lines);
                    json!({"m": m, "p": p})
                }
                8 => json!({"m": "paste", "p": {"chars": "word ".repeat(r.range(1, 60) as usize)}}),
                9 => json!({"m": *r.pick(&["undo", "redo"]), "p": []}),
                10 => json!({"m": *r.pick(&["select_all", "move_to_end_of_document", "move_down", "move_up", "move_to_right_end_of_line", "delete_to_end_of_paragraph"]), "p": []}),
                _ => {
                    let (m, p) = gen_edit(r);
                    json!({"m": m, "p": p})
                }
            };
            o["v"] = json!(r.below(views));
            o["check"] = json!(r.below(8) == 0);
            o
        })
        .collect();
    let mut conf = gen_conf(r);
    for (k, x) in gen_wrap(r).as_object().unwrap() {
        conf[k] = x.clone();
    }
    json!({"texts": texts, "ops": ops, "conf": conf})
}
fn run_c19(sc: &Value) {
    let fe = Fe::start(Start::default());
    let vs = open_all(&fe, sc);
    let mut hl = vec![false; vs.len()];
    let mut width = vec![0.0; vs.len()];
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let x = op["v"].as_u64().unwrap() as usize;
        slog!("op {} {}", vs[x], op);
        perform(&fe, &vs[x], op);
        if op["m"] == "highlight_find" {
            hl[x] = op["p"]["visible"].as_bool().unwrap();
        }
        if op["m"] == "resize" {
            width[x] = op["p"]["width"].as_f64().unwrap();
        }
        if op["check"] == true {
            check_wrap(&format!("after op {} {}", i, op), &fe, &vs[x], width[x], hl[x]);
        }
        note("nontrivial", 1);
    }
    for (x, v) in vs.iter().enumerate() {
        check_wrap("at the end", &fe, v, width[x], hl[x]);
        sig(crate::driver::hash(fe.mirror(v).text().unwrap_or_default().as_bytes()));
    }
}
pub const C19: Prop = Prop {
    id: "C19",
    gen: gen_c19,
    run: run_c19,
    rule: "a run counts when at least one command was performed and the visual lines were compared with the reference wrapper's",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

// ------------------------------------------------------------ C20
#[derive(Clone, Copy, PartialEq)]
enum Wp {
    Lf,
    Space,
    Punct,
    Other,
}
fn wp(c: char) -> Wp {
    match c {
        '\n' => Wp::Lf,
        c if c <= ' ' => Wp::Space,
        '_' => Wp::Other,
        c if c.is_ascii_punctuation() => Wp::Punct,
        _ => Wp::Other,
    }
}
fn whole(text: &str, s: usize, e: usize) -> bool {
    let first = text[s..].chars().next().unwrap();
    let last = text[..e].chars().next_back().unwrap();
    let begins = match text[..s].chars().next_back() {
        None => true,
        Some(p) => matches!((wp(p), wp(first)), (Wp::Lf, _) | (_, Wp::Lf) | (Wp::Space, Wp::Other) | (Wp::Space, Wp::Punct) | (Wp::Punct, Wp::Other)),
    };
    let ends = match text[e..].chars().next() {
        None => true,
        Some(n) => matches!((wp(last), wp(n)), (Wp::Lf, _) | (_, Wp::Lf) | (Wp::Other, Wp::Space) | (Wp::Punct, Wp::Space) | (Wp::Other, Wp::Punct)),
    };
    begins && ends
}
/// What a front-end asked to find.
#[derive(Clone, Debug, PartialEq)]
struct Query {
    id: u64,
    chars: String,
    case: bool,
    regex: bool,
    whole: bool,
}
impl Query {
    fn from(id: u64, q: &Value) -> Query {
        Query { id, chars: q["chars"].as_str().unwrap().into(), case: q["case_sensitive"] == true, regex: q["regex"] == true, whole: q["whole_words"] == true }
    }
    fn compiled(&self) -> Option<regex::Regex> {
        if !self.regex {
            return None;
        }
        regex::RegexBuilder::new(&self.chars).size_limit(1_000_000).case_insensitive(!self.case).build().ok()
    }
    /// All matches in a text searched in one go, or None if what should match depends on where the search began.
    fn matches(&self, text: &str) -> Option<Vec<(usize, usize)>> {
        let mut out = Vec::new();
        if self.chars.is_empty() {
            return Some(out);
        }
        let re = self.compiled();
        if re.is_some() && ["^", "\\b", "\\B", "\\A"].iter().any(|c| self.chars.contains(c)) {
            return None;
        }
        let many = ["\\n", "\\r", "[[:space:]]"].iter().any(|c| self.chars.contains(c));
        let low: Vec<char> = self.chars.to_lowercase().chars().collect();
        let mut at = 0;
        while at < text.len() {
            let hit = if let Some(re) = &re {
                let end = if many { text.len() } else { text[at..].find('\n').map_or(text.len(), |x| at + x + 1) };
                match re.find(&text[at..end]) {
                    Some(m) => Some((at + m.start(), at + m.end())),
                    None => {
                        at = end;
                        continue;
                    }
                }
            } else if self.case {
                text[at..].find(&self.chars).map(|x| (at + x, at + x + self.chars.len()))
            } else {
                text[at..].char_indices().find_map(|(i, _)| {
                    let mut j = 0;
                    for (k, c) in text[at + i..].char_indices() {
                        for l in c.to_lowercase() {
                            if l != low[j] {
                                return None;
                            }
                            j += 1;
                            if j == low.len() {
                                return Some((at + i, at + i + k + c.len_utf8()));
                            }
                        }
                    }
                    None
                })
            };
            let (s, e) = match hit {
                Some(h) => h,
                None => break,
            };
            if s == e || !self.whole || whole(text, s, e) {
                out.push((s, e));
            }
            at = e;
            if s == e {
                at += text[e..].chars().next().map_or(1, |c| c.len_utf8());
            }
        }
        Some(out)
    }
}
/// The queries a view should have.
#[derive(Default)]
struct Finder {
    next: u64,
    qs: Vec<Query>,
    /// what to find was taken from the selection, so it has to be asked for
    unsure: bool,
}
impl Finder {
    fn add(&mut self, q: &Value) {
        self.next += 1;
        self.qs.push(Query::from(self.next, q));
    }
    fn set(&mut self, queries: &[Value]) {
        self.qs.retain(|q| queries.iter().any(|x| x["id"].as_u64() == Some(q.id)));
        for x in queries {
            match x["id"].as_u64() {
                Some(id) => {
                    if let Some(q) = self.qs.iter_mut().find(|q| q.id == id) {
                        *q = Query::from(id, x);
                    }
                }
                None => self.add(x),
            }
        }
    }
    fn op(&mut self, m: &str, p: &Value) {
        match m {
            "find" => {
                let mut q = p.clone();
                q["id"] = self.qs.first().map_or(Value::Null, |q| json!(q.id));
                self.set(&[q]);
            }
            "multi_find" => self.set(p["queries"].as_array().unwrap()),
            "selection_for_find" => {
                if self.qs.len() != 1 {
                    self.add(&json!({"chars": ""}));
                }
                let q = self.qs.last_mut().unwrap();
                q.case = p["case_sensitive"] == true;
                q.regex = false;
                q.whole = true;
                self.unsure = true;
            }
            _ => {}
        }
    }
}
fn spans_of(l: &Line, style: i64) -> Vec<(usize, usize)> {
    let mut at = 0i64;
    let mut out = Vec::new();
    for t in l.styles.chunks(3) {
        let s = at + t[0];
        at = s + t[1];
        if t[2] == style {
            out.push((s as usize, at as usize));
        }
    }
    out
}
fn on_line(rs: &[(usize, usize)], a: usize, b: usize) -> Vec<(usize, usize)> {
    let from = rs.partition_point(|r| r.1 <= a);
    rs[from..].iter().take_while(|r| r.0 < b).filter(|r| r.0.max(a) < r.1.min(b)).map(|r| (r.0.max(a) - a, r.1.min(b) - a)).collect()
}
/// What is found, according to the core, is what a search from scratch finds. Returns the matches.
fn check_find(what: &str, fe: &Fe, v: &str, f: &mut Finder, hl: bool) -> (Mirror, Vec<Option<Vec<(usize, usize)>>>) {
    let m = check_fresh(what, fe, v, hl, None);
    let text = m.text().unwrap();
    let st = m.find_status.as_array().cloned().unwrap_or_default();
    if st.len() != f.qs.len() {
        violation!("find-status", "{}: {} has the queries {:?} but reports {}", what, v, f.qs, m.find_status);
    }
    for (q, s) in f.qs.iter_mut().zip(&st) {
        if f.unsure {
            q.chars = s["chars"].as_str().unwrap_or("").into();
        }
        let want = json!({"id": q.id, "chars": q.chars, "case_sensitive": q.case, "is_regex": q.compiled().is_some(), "whole_words": q.whole});
        for (k, x) in want.as_object().unwrap() {
            if s[k] != *x {
                violation!("find-status", "{}: {} looks for {:?} but reports {}", what, v, q, s);
            }
        }
    }
    f.unsure = false;
    let all: Vec<Option<Vec<(usize, usize)>>> = f.qs.iter().map(|q| q.matches(&text)).collect();
    let mut starts = Vec::new();
    let mut at = 0;
    for l in &m.lines {
        starts.push(at);
        at += l.as_ref().unwrap().text.len();
    }
    for ((q, s), r) in f.qs.iter().zip(&st).zip(&all) {
        let r = match r {
            Some(r) => r,
            None => continue,
        };
        let lines: Vec<usize> = r.iter().map(|x| starts.partition_point(|s| *s <= x.0)).collect();
        if s["matches"].as_u64() != Some(r.len() as u64) || s["lines"] != json!(lines) {
            violation!("find-matches", "{}: {:?} matches {:?} (on lines {:?}) in {} but the core reports {}", what, q, r, lines, short(&text), s);
        }
        note("matches", r.len() as u64);
    }
    for (i, q) in f.qs.iter().enumerate().take(7) {
        if let Some(r) = &all[i] {
            for (n, l) in m.lines.iter().enumerate() {
                let l = l.as_ref().unwrap();
                let want = if hl { on_line(r, starts[n], starts[n] + l.text.len()) } else { Vec::new() };
                let got = spans_of(l, i as i64 + 1);
                if want != got {
                    violation!("find-highlight", "{}: on line {} of {} ({:?}) {:?} should highlight {:?} but {:?} is", what, n, v, l.text, q, want, got);
                }
            }
        }
    }
    for a in &m.annotations {
        if a["type"] != "find" {
            continue;
        }
        for (r, p) in a["ranges"].as_array().unwrap().iter().zip(a["payloads"].as_array().unwrap()) {
            let n: Vec<usize> = r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let i = f.qs.iter().position(|q| p["id"] == q.id);
            let ok = match i {
                None => false,
                Some(i) => match &all[i] {
                    None => true,
                    Some(all) => n[0] < starts.len() && n[2] < starts.len() && all.binary_search(&(starts[n[0]] + n[1], starts[n[2]] + n[3])).is_ok(),
                },
            };
            if !ok {
                violation!("find-annotation", "{}: {} has a find annotation {} {} which is no match of {:?}", what, v, r, p, f.qs);
            }
        }
    }
    (m, all)
}
/// The selections shown, where they can be told apart.
fn shown_sels(m: &Mirror) -> Option<Vec<(usize, usize)>> {
    let mut at = 0;
    let mut carets = Vec::new();
    let mut spans: Vec<(usize, usize)> = Vec::new();
    for l in &m.lines {
        let l = l.as_ref().unwrap();
        carets.extend(l.cursor.iter().map(|c| at + *c as usize));
        for (a, b) in spans_of(l, 0) {
            match spans.last_mut() {
                Some(s) if s.1 == at && a == 0 => s.1 = at + b,
                Some(s) if s.1 == at + a => return None,
                _ => spans.push((at + a, at + b)),
            }
        }
        at += l.text.len();
    }
    let mut out = Vec::new();
    for (a, b) in spans {
        let n = carets.len();
        carets.retain(|c| *c < a || *c > b);
        if n != carets.len() + 1 {
            return None;
        }
        out.push((a, b));
    }
    out.extend(carets.iter().map(|c| (*c, *c)));
    out.sort();
    Some(out)
}
/// The single selection shown, if there is just one.
fn shown_sel(m: &Mirror) -> Option<(usize, usize)> {
    shown_sels(m).filter(|s| s.len() == 1).map(|s| s[0])
}
fn check_sel(what: &str, fe: &Fe, v: &str, f: &mut Finder, hl: bool, want: &[(usize, usize)]) {
    let (m, _) = check_find(what, fe, v, f, hl);
    let mut at = 0;
    for (n, l) in m.lines.iter().enumerate() {
        let l = l.as_ref().unwrap();
        let w = on_line(want, at, at + l.text.len());
        let got = spans_of(l, 0);
        if w != got {
            violation!("find-select", "{}: the selection should be {:?}, but on line {} of {} ({:?}) {:?} is selected", what, want, n, v, l.text, got);
        }
        at += l.text.len();
    }
    if want.len() == 1 && shown_sel(&m).map_or(true, |s| s != want[0]) || want.len() > 1 && shown_sels(&m).map_or(false, |s| s != want) {
        violation!("find-select", "{}: the selection of {} should be {:?} but is {:?}", what, v, want, shown_sels(&m));
    }
}
/// Performs a command that acts on matches when the search has finished, and checks what it does.
fn act_on_matches(what: &str, fe: &Fe, v: &str, f: &mut Finder, hl: bool, op: &Value) {
    let (m, all) = check_find(&format!("before {}", what), fe, v, f, hl);
    let text = m.text().unwrap();
    let name = op["m"].as_str().unwrap();
    perform(fe, v, op);
    let sure = !f.qs.is_empty() && all.iter().all(|x| x.is_some()) && f.qs.len() == 1 && all[0].as_ref().unwrap().iter().all(|x| x.0 < x.1);
    if !sure {
        return;
    }
    let r = all[0].clone().unwrap();
    let sel = shown_sel(&m);
    note("acts", 1);
    match name {
        "find_all" => {
            if !r.is_empty() {
                check_sel(what, fe, v, f, hl, &r);
            } else if let Some(s) = sel {
                check_sel(what, fe, v, f, hl, &[s]);
            }
        }
        "find_next" | "find_previous" => {
            let sels = match shown_sels(&m).filter(|s| !s.is_empty()) {
                Some(s) => s,
                None => return,
            };
            let s = *sels.last().unwrap();
            let next = name == "find_next";
            let from = if s.0 == s.1 { s.1 } else { s.1 + 1 };
            let free = |x: &&(usize, usize)| sels.iter().all(|s| x.1 < s.0 || x.0 > s.1);
            let hit = if next { r.iter().find(|x| x.1 >= from) } else { r.iter().rfind(|x| s.0 > 0 && x.0 <= s.0 - 1) };
            let hit = match hit {
                None if op["p"]["wrap_around"] == true => {
                    if next {
                        r.iter().find(free)
                    } else {
                        r.iter().rfind(free)
                    }
                }
                h => h,
            };
            let how = op["p"]["modify_selection"].as_str().unwrap_or("");
            let mut want = sels.clone();
            match hit {
                Some(h) if how == "set" => want = vec![*h],
                Some(h) if how != "none" => {
                    if how == "add_removing_current" && s.0 < s.1 {
                        want.pop();
                    }
                    if want.iter().any(|s| s.1 >= h.0 && s.0 <= h.1) || sels.iter().any(|x| x.1 >= s.0 && x.0 <= s.1 && *x != s) {
                        return;
                    }
                    want.push(*h);
                    want.sort();
                }
                _ => {}
            }
            check_sel(what, fe, v, f, hl, &want);
        }
        "replace_next" | "replace_all" => {
            let by = match m.replace_status["chars"].as_str() {
                Some(b) => b.to_string(),
                None => return,
            };
            let mut want = text.clone();
            if name == "replace_all" {
                for (a, b) in r.iter().rev() {
                    want.replace_range(a..b, &by);
                }
            } else if !r.is_empty() {
                let got = fe.contents(v).unwrap();
                let same = text.bytes().zip(got.bytes()).take_while(|x| x.0 == x.1).count();
                let tail = text.bytes().rev().zip(got.bytes().rev()).take_while(|x| x.0 == x.1).count();
                let ok = r.iter().any(|&(a, b)| a <= same && text.len() - b <= tail && got.len() + (b - a) == text.len() + by.len() && got.as_bytes()[a..].starts_with(by.as_bytes()));
                if !ok {
                    violation!("find-replace", "{}: replacing one of {:?} with {:?} in {} gave {}", what, r, by, short(&text), short(&got));
                }
                if let Some(s) = sel.filter(|s| r.contains(s)) {
                    want.replace_range(s.0..s.1, &by);
                } else {
                    want = got;
                }
            }
            let got = fe.contents(v).unwrap();
            if got != want {
                violation!("find-replace", "{}: replacing {} of {:?} with {:?} in {} gave {} instead of {}", what, name, r, by, short(&text), short(&got), short(&want));
            }
        }
        _ => {}
    }
}
fn gen_c20(r: &mut Rng, th: bool) -> Value {
    let huge = r.below(if th { 60 } else { 150 }) == 0;
    let mut text = gen_big(r, 60);
    if huge {
        let mut u = gen_text(r, 40);
        while u.len() < 2000 {
            u = u + &gen_line(r) + " filler\n";
        }
        let size = *r.pick(&[520_000usize, 700_000, 1_100_000]);
        while text.len() < size {
            text.push_str(&u);
        }
    }
    let lines = text.matches('\n').count() as u64;
    let n = if huge { r.range(2, 6) } else { r.range(4, if th { 80 } else { 36 }) };
    let wrapping = r.below(3) == 0;
    let ops: Vec<Value> = (0..n)
        .map(|i| {
            let mut o = match r.below(14) {
                _ if i == 0 => json!({"m": "highlight_find", "p": {"visible": true}}),
                0..=2 if huge => {
                    let mut q = gen_query(r);
                    q["chars"] = json!(*r.pick(&["foo", "日本", "zz", "a.b", "f(", "it's", "99", "alpha", "l.*r", "É"]));
                    json!({"m": "find", "p": q})
                }
                _ if i == 1 => json!({"m": "find", "p": gen_query(r)}),
                0..=3 => {
                    let (m, p) = gen_find(r);
                    json!({"m": m, "p": p})
                }
                4 if wrapping => gen_show(r, lines),
                4 | 5 => {
                    let a = r.below(lines + 3);
                    json!({"m": "scroll", "p": [a, a + r.below(25)]})
                }
                6 | 7 => {
                    let (m, p) = gen_view(r, lines);
                    json!({"m": m, "p": p})
                }
                8 => json!({"m": *r.pick(&["undo", "redo", "delete_word_backward", "delete_to_end_of_paragraph", "duplicate_line", "insert_newline", "transpose"]), "p": []}),
                9 => json!({"m": "insert", "p": {"chars": *r.pick(&["foo", "a", "\n", " ", "ba", "o", "日本", "x", "\r\n", "aa"])}}),
                10 => json!({"k": "pause", "ms": r.below(20)}),
                _ => {
                    let (m, p) = gen_edit(r);
                    json!({"m": m, "p": p})
                }
            };
            let acts = o["m"].as_str().map_or(false, |m| ["find_next", "find_previous", "find_all", "replace_next", "replace_all"].contains(&m));
            o["check"] = json!(if acts { r.below(3) > 0 } else { r.below(6) == 0 });
            o
        })
        .collect();
    json!({"texts": [text], "ops": ops, "conf": gen_conf(r)})
}
fn run_c20(sc: &Value) {
    let fe = Fe::start(Start::default());
    let v = open_all(&fe, sc).remove(0);
    let mut f = Finder::default();
    let mut hl = false;
    let most = fe.mirror(&v).lines.len().max(1000) * 2;
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {} {}", v, op);
        let what = format!("op {} {}", i, op);
        let m = op["m"].as_str().unwrap_or("");
        if fe.mirror(&v).lines.len() > most {
            // thousands of carets that each insert lines: no longer a run that ends soon
            break;
        }
        let acts = ["find_next", "find_previous", "find_all", "replace_next", "replace_all"].contains(&m);
        note("nontrivial", 1);
        if acts && op["check"] == true {
            act_on_matches(&what, &fe, &v, &mut f, hl, op);
            continue;
        }
        perform(&fe, &v, op);
        f.op(m, &op["p"]);
        if m == "highlight_find" {
            hl = op["p"]["visible"].as_bool().unwrap();
        }
        if op["check"] == true || f.unsure {
            check_find(&format!("after {}", what), &fe, &v, &mut f, hl);
        }
    }
    let (m, all) = check_find("at the end", &fe, &v, &mut f, hl);
    // a search that starts from scratch agrees, also where the reference does not say what should be found
    let before = m.find_status.clone();
    for q in &f.qs {
        fe.edit(&v, "multi_find", json!({"queries": []}));
        let x = json!({"chars": q.chars, "case_sensitive": q.case, "regex": q.regex, "whole_words": q.whole});
        fe.edit(&v, "find", x);
        fe.settle();
        let now = fe.mirror(&v).find_status;
        let old = before.as_array().unwrap().iter().find(|o| o["id"] == q.id).unwrap();
        if now[0]["matches"] != old["matches"] || now[0]["lines"] != old["lines"] {
            violation!("find-stale", "at the end: {:?} was reported as {} but when searched for anew as {} in {}", q, old, now, short(&m.text().unwrap()));
        }
    }
    for r in all.into_iter().flatten() {
        sig(r.iter().fold(r.len() as u64, |h, x| h.wrapping_mul(31).wrapping_add((x.0 * 7 + x.1) as u64)));
    }
}
pub const C20: Prop = Prop {
    id: "C20",
    gen: gen_c20,
    run: run_c20,
    rule: "a run counts when at least one command was performed and what is found was compared with the reference search",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
#[allow(dead_code)]
fn unused(_: &model::Model) {}
