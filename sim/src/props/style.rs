//! Styles and annotations of plugins stay on the text they were given for (C13).
//! Every character of a document occurs once, so that it can be told where each one went.
use crate::driver::Prop;
use crate::fe::*;
use crate::plug::*;
use crate::props::edit::*;
use crate::props::view::check_fresh;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::str::FromStr;
use syntect::highlighting::{Highlighter, StyleModifier, ThemeSet};
use syntect::parsing::Scope;

const SCOPES: &[&[&str]] = &[
    &["source.rust"],
    &["source.rust", "string.quoted.double.rust"],
    &["source.rust", "string.quoted.double.rust", "constant.character.escape.rust"],
    &["comment.line.double-slash.rust"],
    &["keyword.control.rust"],
    &["source.rust", "entity.name.function.rust"],
    &["constant.numeric"],
    &["markup.bold"],
    &["markup.italic"],
    &["text.html.markdown", "markup.heading"],
    &["invalid.illegal"],
    &["support.function"],
    &["nothing.known"],
];
const THEMES: &[&str] = &["InspiredGitHub", "Solarized (dark)", "Solarized (light)", "base16-eighties.dark", "base16-ocean.dark", "base16-ocean.light", "base16-mocha.dark"];

/// The n-th of the characters that are only used once.
fn fresh(n: u64) -> char {
    match n % 4 {
        0 if n / 4 < 26 => (b'a' + (n / 4) as u8) as char,
        1 if n / 4 < 100 => char::from_u32(0x100 + (n / 4) as u32).unwrap(),
        2 if n / 4 < 60 => char::from_u32(0x1f400 + (n / 4) as u32).unwrap(),
        _ => char::from_u32(0x4e00 + n as u32).unwrap(),
    }
}
fn gen_fresh(r: &mut Rng, next: &mut u64, max: u64) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, max) {
        s.push(fresh(*next));
        *next += 1;
        if r.below(9) == 0 {
            s.push('\n');
        }
    }
    s
}
fn gen_c13(r: &mut Rng, th: bool) -> Value {
    let mut next = 0;
    let size = *r.pick(&[6u64, 30, 120, if th { 900 } else { 500 }]);
    let text = gen_fresh(r, &mut next, size);
    let np = r.range(1, 3);
    let plugs: Vec<Value> = (0..np).map(|i| json!({"n": format!("sty{}", i), "ack": *r.pick(&["now", "hold", "late"]), "ms": *r.pick(&[1u64, 5, 40])})).collect();
    let n = r.range(4, if th { 70 } else { 34 });
    let mut ops = Vec::new();
    let mut edits = 0;
    let few = r.below(3) > 0;
    let dense = r.below(5) == 0;
    let undo = r.below(3) == 0;
    let kinds: Vec<&str> = vec!["lint", "mark", "find", "selection"];
    for i in 0..n {
        let p = r.below(np);
        let x = |r: &mut Rng| r.below(1000);
        let o = match r.below(20) {
            _ if i < np => {
                let s: Vec<usize> = (0..r.range(1, 5)).map(|_| r.below(SCOPES.len() as u64) as usize).collect();
                json!({"k": "scopes", "n": i, "s": s})
            }
            0 => {
                let s: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(SCOPES.len() as u64) as usize).collect();
                json!({"k": "scopes", "n": p, "s": s})
            }
            1..=4 => {
                let m = if dense { r.range(60, 200) } else { r.below(7) };
                let sp: Vec<Value> = (0..m).map(|_| json!([r.below(3), r.range(1, if dense { 2 } else { 6 }), x(r)])).collect();
                json!({"k": "spans", "n": p, "old": if r.below(3) == 0 { r.below(5) } else { 0 }, "a": x(r), "len": x(r), "all": r.below(3) == 0, "sp": sp})
            }
            5..=7 => {
                let m = if dense { r.range(60, 200) } else { r.below(5) };
                let sp: Vec<Value> = (0..m).map(|_| json!([r.below(3), r.below(6)])).collect();
                json!({"k": "ann", "n": p, "old": if r.below(3) == 0 { r.below(5) } else { 0 }, "a": x(r), "len": x(r), "all": r.below(3) == 0, "sp": sp, "t": kinds[r.below(if few { 2 } else { 4 }) as usize]})
            }
            8 => json!({"k": "theme", "n": *r.pick(THEMES)}),
            9 if r.below(6) == 0 => json!({"k": "stop", "n": p, "late": r.below(4), "ms": r.below(6)}),
            9 | 10 => json!({"k": "pause", "ms": r.below(30)}),
            11 => json!({"k": "release", "n": p}),
            12 => json!({"k": "check"}),
            13 if !few || edits < 18 => {
                edits += 1;
                json!({"k": "pedit", "n": p, "a": x(r), "len": r.below(6), "ins": if r.below(3) == 0 { String::new() } else { gen_fresh(r, &mut next, 5) }})
            }
            14 => {
                let (m, p) = match r.below(5) {
                    0 => ("click".to_string(), json!([r.below(size / 8 + 2), r.below(9), 0, 1])),
                    1 => ("drag".to_string(), json!([r.below(size / 8 + 2), r.below(9), 0])),
                    2 => ("select_all".to_string(), json!([])),
                    _ => loop {
                        let m = *r.pick(MOVES);
                        // several carets would insert the same text twice
                        if !m.starts_with("add_sel") && m != "selection_into_lines" {
                            break (m.to_string(), json!([]));
                        }
                    },
                };
                json!({"m": m, "p": p})
            }
            _ if !few || edits < 18 => {
                edits += 1;
                match r.below(9) {
                    0 => json!({"m": *r.pick(&["delete_backward", "delete_forward", "delete_word_backward", "delete_to_end_of_paragraph", "delete_to_beginning_of_line"]), "p": []}),
                    1 if undo => json!({"m": *r.pick(&["undo", "undo", "redo"]), "p": []}),
                    2 => json!({"k": "cut", "a": [r.below(size / 8 + 2), r.below(9)], "b": [r.below(size / 8 + 2), r.below(9)]}),
                    3 => json!({"m": "insert_newline", "p": []}),
                    4 => json!({"m": "paste", "p": {"chars": gen_fresh(r, &mut next, 12)}}),
                    _ => {
                        let s = gen_fresh(r, &mut next, 4);
                        json!({"k": "type", "a": [r.below(size / 8 + 2), r.below(9)], "s": s})
                    }
                }
            }
            _ => json!({"k": "check"}),
        };
        ops.push(o);
    }
    json!({"text": text, "plugs": plugs, "ops": ops, "wrap": *r.pick(&[0u64, 0, 0, 5, 17]), "theme": *r.pick(THEMES), "edits": edits})
}

/// What the front-end should be told about a style.
#[derive(Clone, PartialEq, Default, Debug)]
struct Look {
    fg: Option<u32>,
    bg: Option<u32>,
    weight: Option<u64>,
    underline: Option<bool>,
    italic: Option<bool>,
}
impl Look {
    fn of(theme: &syntect::highlighting::Theme, scopes: &[&str]) -> Look {
        let hl = Highlighter::new(theme);
        let stack: Vec<Scope> = scopes.iter().map(|s| Scope::from_str(s).unwrap()).collect();
        let mut m = StyleModifier::default();
        for i in 0..stack.len() {
            m = m.apply(hl.style_mod_for_stack(&stack[..=i]));
        }
        let rgba = |c: syntect::highlighting::Color| u32::from_be_bytes([c.a, c.r, c.g, c.b]);
        let bits = m.font_style.map_or(0, |f| f.bits());
        Look {
            fg: m.foreground.map(rgba),
            bg: m.background.map(rgba),
            weight: if bits & 1 != 0 { Some(700) } else { None },
            underline: if bits & 2 != 0 { Some(true) } else { None },
            italic: if bits & 4 != 0 { Some(true) } else { None },
        }
    }
    fn over(self, under: &Look) -> Look {
        Look {
            fg: self.fg.or(under.fg),
            bg: self.bg.or(under.bg),
            weight: self.weight.or(under.weight),
            underline: self.underline.or(under.underline),
            italic: self.italic.or(under.italic),
        }
    }
    fn told(v: &Value) -> Look {
        Look {
            fg: v["fg_color"].as_u64().map(|x| x as u32),
            bg: v["bg_color"].as_u64().map(|x| x as u32),
            weight: v["weight"].as_u64(),
            underline: v["underline"].as_bool(),
            italic: v["italic"].as_bool(),
        }
    }
}

/// Something a plugin said about a region of a revision.
struct Said {
    plug: usize,
    text: String,
    has: HashSet<char>,
    region: HashSet<char>,
    /// the scope of each character, or for annotations the number of the annotation
    marks: HashMap<char, usize>,
    sure: bool,
    /// how many revisions there were when this was certainly heard
    heard: Option<usize>,
    kind: String,
    first: usize,
    n: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Known {
    Is(Option<usize>),
    Any,
}
struct World {
    fe: Fe,
    v: String,
    plugs: Plugs,
    names: Vec<String>,
    stopped: Vec<bool>,
    scopes: Vec<Vec<usize>>,
    spans: Vec<Said>,
    anns: Vec<Said>,
    next_ann: usize,
    theme: String,
    few: bool,
    themes: ThemeSet,
}
impl World {
    fn revs(&self) -> Vec<(u64, Option<String>)> {
        self.plugs.get("zobs").unwrap().view(&self.v).unwrap().hist
    }
    /// Everything sent so far has been heard by everyone.
    fn settle(&mut self) {
        for _ in 0..2 {
            for n in self.names.iter().chain(std::iter::once(&"zobs".to_string())) {
                if let Some(p) = self.plugs.get(n) {
                    if !p.dead() {
                        let _ = p.request("line_count", &self.v, json!({}));
                    }
                }
            }
            self.fe.settle();
        }
        // the observer has been told of every revision once its answer comes after
        let rev = self.revs().len();
        for s in self.spans.iter_mut().chain(self.anns.iter_mut()) {
            s.heard.get_or_insert(rev);
        }
    }
    /// Sends styles or annotations of a plugin.
    fn say(&mut self, op: &Value) {
        let i = op["n"].as_u64().unwrap() as usize;
        let spans = op["k"] == "spans";
        if self.stopped[i] || (spans && self.scopes[i].is_empty()) {
            return;
        }
        let p = match self.plugs.get(&self.names[i]) {
            Some(p) => p,
            None => return,
        };
        if !self.few {
            self.settle();
        }
        let w = p.view(&self.v).unwrap();
        // the core may forget a revision once every plugin has answered a later one
        let held = p.st.with(|s| s.held.len());
        let old = if self.few { (op["old"].as_u64().unwrap() as usize).min(held) } else { 0 };
        let (rev, text) = match w.hist[w.hist.len() - 1 - old.min(w.hist.len() - 1)].clone() {
            (r, Some(t)) => (r, t),
            _ => return,
        };
        let sure = self.few || self.revs().last().unwrap().0 == rev;
        let at: Vec<usize> = text.char_indices().map(|x| x.0).chain(std::iter::once(text.len())).collect();
        let n = at.len() - 1;
        let (mut a, mut len) = (op["a"].as_u64().unwrap() as usize % (n + 1), 0);
        if a < n {
            len = op["len"].as_u64().unwrap() as usize % (n - a + 1);
        }
        if op["all"] == true {
            a = 0;
            len = n;
        }
        let mut sent = Vec::new();
        let mut marks = HashMap::new();
        let mut c = 0;
        let mut number = self.next_ann;
        let chars: Vec<char> = text.chars().collect();
        for s in op["sp"].as_array().unwrap() {
            let from = c + s[0].as_u64().unwrap() as usize;
            let to = from + s[1].as_u64().unwrap() as usize;
            if to > len {
                break;
            }
            let (x, y) = (at[a + from] - at[a], at[a + to] - at[a]);
            if spans {
                let id = s[2].as_u64().unwrap() as usize % self.scopes[i].len();
                sent.push(json!({"start": x, "end": y, "scope_id": id}));
                for ch in &chars[a + from..a + to] {
                    marks.insert(*ch, self.scopes[i][id]);
                }
            } else {
                sent.push(json!({"start": x, "end": y, "data": {"k": number}}));
                for ch in &chars[a + from..a + to] {
                    marks.insert(*ch, number);
                }
                number += 1;
            }
            c = to;
        }
        let region: HashSet<char> = chars[a..a + len].iter().copied().collect();
        let mut m = json!({"start": at[a], "len": at[a + len] - at[a], "spans": sent, "rev": rev});
        let kind = op["t"].as_str().unwrap_or("").to_string();
        if !spans {
            m["annotation_type"] = match kind.as_str() {
                "find" => json!("Find"),
                "selection" => json!("Selection"),
                o => json!({ "Other": o }),
            };
        }
        slog!("plugin {} says {}", i, m);
        p.notify(if spans { "update_spans" } else { "update_annotations" }, &self.v, m);
        let said = Said { plug: i, has: chars.iter().copied().collect(), text, region, marks, sure, heard: None, kind, first: self.next_ann, n: number - self.next_ann };
        note(if spans { "styles-sent" } else { "annotations-sent" }, 1);
        if spans {
            self.spans.push(said);
        } else {
            self.next_ann = number;
            self.anns.push(said);
        }
        if !self.few {
            self.settle();
        }
    }
    fn check(&mut self, what: &str) {
        self.settle();
        self.fe.edit(&self.v, "scroll", json!([0, 2000]));
        let m = check_fresh(what, &self.fe, &self.v, false, None);
        let text = m.text().unwrap();
        let revs = self.revs();
        // when each character came, and whether it had been away
        let mut born: HashMap<char, usize> = HashMap::new();
        let mut away: HashSet<char> = HashSet::new();
        let mut before: HashSet<char> = HashSet::new();
        for (i, r) in revs.iter().enumerate() {
            let t = match &r.1 {
                Some(t) => t,
                None => violation!("no-text", "{}: revision {} is not known to the observing plugin", what, r.0),
            };
            let now: HashSet<char> = t.chars().collect();
            for c in &now {
                if born.contains_key(c) && !before.contains(c) {
                    away.insert(*c);
                }
                born.entry(*c).or_insert(i);
            }
            before = now;
        }
        if revs.last().unwrap().1.as_ref() != Some(&text) {
            violation!("observer", "{}: the text is {} but plugins were told {:?}", what, short(&text), revs.last().unwrap().1);
        }
        // styles
        let theme = &self.themes.themes[&self.theme];
        let mut base = Look::default();
        base.fg = Some(theme.settings.foreground.map_or(0xff00_0000, |c| u32::from_be_bytes([c.a, c.r, c.g, c.b])));
        let mut order: Vec<(u64, usize)> = (0..self.names.len()).filter(|i| !self.stopped[*i]).filter_map(|i| Some((self.plugs.get(&self.names[i])?.st.with(|s| s.plugin_id)?, i))).collect();
        order.sort();
        let known = |said: &[Said], plug: usize, c: char| {
            let mut k = Known::Is(None);
            for s in said.iter().filter(|s| s.plug == plug) {
                if s.has.contains(&c) {
                    if s.region.contains(&c) {
                        k = if s.sure { Known::Is(s.marks.get(&c).copied()) } else { Known::Any };
                    }
                } else if born[&c] < s.heard.unwrap() {
                    k = Known::Any;
                }
            }
            k
        };
        let mut seen = 0;
        for (n, l) in m.lines.iter().enumerate() {
            let l = l.as_ref().unwrap();
            let mut shown: Vec<Option<u64>> = vec![None; l.text.len()];
            let mut at = 0i64;
            for t in l.styles.chunks(3) {
                let s = at + t[0];
                at = s + t[1];
                if t[2] >= 8 {
                    for x in &mut shown[s as usize..at as usize] {
                        if x.is_some() {
                            violation!("style-twice", "{}: line {} ({:?}) has overlapping styles {:?}", what, n, l.text, l.styles);
                        }
                        *x = Some(t[2] as u64);
                    }
                }
            }
            for (i, c) in l.text.char_indices() {
                if c == '\n' || away.contains(&c) {
                    continue;
                }
                let ks: Vec<Known> = order.iter().map(|o| known(&self.spans, o.1, c)).collect();
                if ks.contains(&Known::Any) {
                    continue;
                }
                let scopes: Vec<usize> = ks.iter().filter_map(|k| if let Known::Is(s) = k { *s } else { None }).collect();
                let mut want = base.clone();
                for s in &scopes {
                    want = Look::of(theme, SCOPES[*s]).over(&want);
                }
                let got = match shown[i] {
                    None => base.clone(),
                    Some(id) => match self.fe.st.with(|s| s.styles.get(&id).cloned()) {
                        Some(d) => Look::told(&d),
                        None => violation!("style-undefined", "{}: style {} on line {} was never defined", what, id, n),
                    },
                };
                if got != want || (shown[i].is_some() && scopes.is_empty()) {
                    violation!("style-wrong", "{}: {:?} (on line {}, {:?}) has the scopes {:?} and should look like {:?} in {} but looks like {:?}", what, c, n, l.text, scopes.iter().map(|s| SCOPES[*s]).collect::<Vec<_>>(), want, self.theme, got);
                }
                if !scopes.is_empty() {
                    seen += 1;
                }
            }
        }
        note("styled-chars", seen);
        // annotations
        let mut starts = Vec::new();
        let mut at = 0;
        for l in &m.lines {
            starts.push(at);
            at += l.as_ref().unwrap().text.len();
        }
        let mut shown: HashMap<usize, (String, Vec<(usize, usize)>)> = HashMap::new();
        for a in &m.annotations {
            let kind = a["type"].as_str().unwrap();
            let rs = a["ranges"].as_array().unwrap();
            if a["n"].as_u64() != Some(rs.len() as u64) {
                violation!("annotation", "{}: {} ranges of annotations are said to be {}", what, rs.len(), a["n"]);
            }
            let ps = match a["payloads"].as_array() {
                Some(p) => p,
                None => continue,
            };
            for (r, p) in rs.iter().zip(ps) {
                let k = match p["k"].as_u64() {
                    Some(k) => k as usize,
                    None => continue,
                };
                let x: Vec<usize> = r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                if x[0] >= starts.len() || x[2] >= starts.len() || starts[x[0]] + x[1] > text.len() || starts[x[2]] + x[3] > text.len() || starts[x[0]] + x[1] > starts[x[2]] + x[3] {
                    violation!("annotation-outside", "{}: annotation {} is shown at {} in {} lines of {} bytes", what, k, r, starts.len(), text.len());
                }
                let e = shown.entry(k).or_insert((kind.to_string(), Vec::new()));
                e.1.push((starts[x[0]] + x[1], starts[x[2]] + x[3]));
            }
        }
        for (k, (kind, rs)) in &shown {
            let s = match self.anns.iter().find(|s| *k >= s.first && *k < s.first + s.n) {
                Some(s) => s,
                None => violation!("annotation-stays", "{}: annotation {} at {:?} is shown although its plugin had been stopped when it was sent, or it never was", what, k, rs),
            };
            if s.kind != *kind {
                violation!("annotation-type", "{}: annotation {} is shown as {:?}", what, k, kind);
            }
            if self.stopped[s.plug] {
                violation!("annotation-stays", "{}: annotation {} at {:?} is shown although its plugin has been stopped", what, k, rs);
            }
            if rs.iter().any(|r| !text.is_char_boundary(r.0) || !text.is_char_boundary(r.1)) {
                violation!("annotation-outside", "{}: annotation {} is shown at {:?} in {:?}", what, k, rs, short(&text));
            }
        }
        for (i, s) in self.anns.iter().enumerate() {
            if self.stopped[s.plug] {
                continue;
            }
            for k in s.first..s.first + s.n {
                let over: HashSet<char> = shown.get(&k).map_or(HashSet::new(), |x| x.1.iter().flat_map(|r| text[r.0..r.1].chars()).collect());
                let mine: Vec<char> = s.text.chars().filter(|c| s.marks.get(c) == Some(&k) && *c != '\n').collect();
                let mut found = 0;
                for c in text.chars().filter(|c| *c != '\n' && s.has.contains(c) && !away.contains(c)) {
                    let mut must = mine.contains(&c);
                    let mut may = must;
                    for l in self.anns[i + 1..].iter().filter(|l| l.plug == s.plug && l.kind == s.kind) {
                        if !l.has.contains(&c) || !l.sure {
                            must = false;
                        } else if l.region.contains(&c) {
                            must = false;
                            may = false;
                        }
                    }
                    if over.contains(&c) && !may {
                        violation!("annotation-moved", "{}: annotation {} was given for {:?} in {} but is shown on {:?} in {}", what, k, mine, short(&s.text), over, short(&text));
                    }
                    if must && s.sure && !over.contains(&c) {
                        violation!("annotation-lost", "{}: annotation {} was given for {:?} in {} but is shown on {:?} and not on {:?} in {}", what, k, mine, short(&s.text), over, c, short(&text));
                    }
                    if over.contains(&c) {
                        found += 1;
                    }
                }
                note("annotated-chars", found);
            }
        }
    }
}
fn run_c13(sc: &Value) {
    vos::h_mkdirs("/w");
    let plugs = Plugs::new();
    let names: Vec<String> = sc["plugs"].as_array().unwrap().iter().map(|p| p["n"].as_str().unwrap().to_string()).collect();
    for p in sc["plugs"].as_array().unwrap() {
        let mut s = Spec::new(p["n"].as_str().unwrap());
        s.ack = match p["ack"].as_str().unwrap() {
            "now" => Ack::Now,
            "hold" => Ack::Hold,
            _ => Ack::After(p["ms"].as_u64().unwrap() * MS),
        };
        s.strict = false;
        plugs.install("/cfg", s);
    }
    let mut s = Spec::new("zobs");
    s.strict = false;
    plugs.install("/cfg", s);
    let fe = Fe::start(Start { config_dir: Some("/cfg".into()), ..Start::default() });
    fe.notify("modify_user_config", json!({"domain": "general", "changes": {"wrap_width": sc["wrap"], "autodetect_whitespace": false}}));
    fe.notify("set_theme", json!({"theme_name": sc["theme"]}));
    let text = sc["text"].as_str().unwrap().to_string();
    vos::h_write("/w/f", text.as_bytes());
    let v = fe.new_view(Some("/w/f"));
    fe.settle();
    for n in names.iter().chain(std::iter::once(&"zobs".to_string())) {
        let ok = eventually_in(60 * SEC, 5 * MS, || plugs.get(n).map_or(false, |p| p.view(&v).map_or(false, |w| w.begun > 0)));
        if !ok {
            violation!("plugin-start", "plugin {} was not started for {}", n, v);
        }
        let p = plugs.get(n).unwrap();
        let rev = p.view(&v).unwrap().hist[0].0;
        p.know(&v, rev, &text);
    }
    let k = names.len();
    // Answers are handled when they are read, which may be before the messages that were sent before them.
    // With that, revisions that hold undone edits may be forgotten before the styles for them come.
    let undone = sc["ops"].as_array().unwrap().iter().any(|o| o["m"] == "undo");
    let held = sc["plugs"].as_array().unwrap().iter().all(|p| p["ack"] == "hold");
    let mut w = World {
        fe,
        v,
        plugs,
        names,
        stopped: vec![false; k],
        scopes: vec![Vec::new(); k],
        spans: Vec::new(),
        anns: Vec::new(),
        next_ann: 0,
        theme: sc["theme"].as_str().unwrap().into(),
        few: sc["edits"].as_u64().unwrap() <= 18 && (!undone || held),
        themes: ThemeSet::load_defaults(),
    };
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {} {}", i, op);
        note("nontrivial", 1);
        let x = op["n"].as_u64().unwrap_or(0) as usize;
        let what = format!("after op {} {}", i, op["k"]);
        match op["k"].as_str() {
            Some("scopes") => {
                if let (false, Some(p)) = (w.stopped[x], w.plugs.get(&w.names[x])) {
                    let s: Vec<usize> = op["s"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize).collect();
                    let l: Vec<Value> = s.iter().map(|i| json!(SCOPES[*i])).collect();
                    p.notify("add_scopes", &w.v, json!({ "scopes": l }));
                    w.scopes[x].extend(s);
                }
            }
            Some("spans") | Some("ann") => w.say(op),
            Some("theme") => {
                w.theme = op["n"].as_str().unwrap().into();
                w.fe.notify("set_theme", json!({"theme_name": w.theme}));
            }
            Some("stop") => {
                w.settle();
                w.fe.notify("plugin", json!({"command": "stop", "view_id": w.v, "plugin_name": w.names[x]}));
                w.stopped[x] = true;
                // what it has still to say comes too late
                if let Some(p) = w.plugs.get(&w.names[x]) {
                    let pv = p.view(&w.v).unwrap();
                    let n = pv.text.as_ref().map_or(0, |t| t.len());
                    for i in 0..op["late"].as_u64().unwrap_or(0) {
                        if i > 0 {
                            sleep(op["ms"].as_u64().unwrap_or(0) * MS / 2);
                        }
                        p.notify("add_scopes", &w.v, json!({"scopes": [SCOPES[0]]}));
                        p.notify("update_spans", &w.v, json!({"start": 0, "len": n, "spans": [{"start": 0, "end": n, "scope_id": 0}], "rev": pv.rev}));
                        p.notify("update_annotations", &w.v, json!({"start": 0, "len": n, "spans": [{"start": 0, "end": n, "data": {"k": 4711}}], "rev": pv.rev, "annotation_type": {"Other": "lint"}}));
                    }
                }
            }
            Some("pause") => sleep(op["ms"].as_u64().unwrap() * MS),
            Some("release") => {
                if let Some(p) = w.plugs.get(&w.names[x]) {
                    let _ = p.request("line_count", &w.v, json!({}));
                    p.release();
                }
            }
            Some("check") => w.check(&what),
            Some("pedit") => {
                if let (false, Some(p)) = (w.stopped[x], w.plugs.get(&w.names[x])) {
                    let pv = p.view(&w.v).unwrap();
                    if let Some(t) = &pv.text {
                        let at: Vec<usize> = t.char_indices().map(|x| x.0).chain(std::iter::once(t.len())).collect();
                        let a = op["a"].as_u64().unwrap() as usize % at.len();
                        let b = (a + op["len"].as_u64().unwrap() as usize).min(at.len() - 1);
                        let d = delta(t.len(), at[a], at[b], op["ins"].as_str().unwrap());
                        p.notify("edit", &w.v, json!({"edit": {"rev": pv.rev, "delta": d, "priority": 100, "after_cursor": i % 2 == 0, "undo_group": Value::Null, "author": w.names[x]}}));
                    }
                }
            }
            Some("type") => {
                w.fe.edit(&w.v, "click", json!([op["a"][0], op["a"][1], 0, 1]));
                w.fe.edit(&w.v, "insert", json!({"chars": op["s"]}));
            }
            Some("cut") => {
                w.fe.edit(&w.v, "click", json!([op["a"][0], op["a"][1], 0, 1]));
                w.fe.edit(&w.v, "drag", json!([op["b"][0], op["b"][1], 0]));
                w.fe.edit(&w.v, "delete_backward", json!([]));
            }
            _ => w.fe.edit(&w.v, op["m"].as_str().unwrap(), op["p"].clone()),
        }
    }
    w.check("at the end");
    sig(w.revs().len() as u64 * 1000 + w.next_ann as u64 + crate::driver::hash(w.revs().last().unwrap().1.clone().unwrap_or_default().as_bytes()));
}
pub const C13: Prop = Prop {
    id: "C13",
    gen: gen_c13,
    run: run_c13,
    rule: "a run counts when at least one action was performed and the styles and annotations shown were compared with the ones given",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
