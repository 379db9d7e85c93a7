//! A straightforward reference editor: a string, a list of selections and a list of undo snapshots.
//! It says what every user command does to a document that is not soft-wrapped. It knows nothing of
//! ropes, revisions, deltas or line caches. Every byte carries an identity, which is what selections
//! and undo follow.
use serde_json::Value;
use unicode_segmentation::{GraphemeCursor, GraphemeIncomplete};
use xi_unicode::{is_keycap_base, is_variation_selector, EmojiExt};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Reg {
    pub start: usize,
    pub end: usize,
    pub horiz: Option<usize>,
}
impl Reg {
    pub fn new(start: usize, end: usize) -> Reg {
        Reg { start, end, horiz: None }
    }
    pub fn caret(p: usize) -> Reg {
        Reg::new(p, p)
    }
    pub fn min(&self) -> usize {
        self.start.min(self.end)
    }
    pub fn max(&self) -> usize {
        self.start.max(self.end)
    }
    pub fn is_caret(&self) -> bool {
        self.start == self.end
    }
}
/// Regions in order of position: two overlapping selections become one, and a caret that touches a
/// selection (or another caret) is absorbed by it.
pub fn add_region(v: &mut Vec<Reg>, mut r: Reg) {
    let touch = |a: &Reg, b: &Reg| {
        let (lo, hi) = if (a.min(), a.max()) <= (b.min(), b.max()) { (a, b) } else { (b, a) };
        hi.min() < lo.max() || ((a.is_caret() || b.is_caret()) && hi.min() == lo.max())
    };
    loop {
        let mut merged = false;
        let mut i = 0;
        while i < v.len() {
            if touch(&v[i], &r) {
                let o = v.remove(i);
                let (a, b) = (r.min().min(o.min()), r.max().max(o.max()));
                r = if r.end >= r.start { Reg::new(a, b) } else { Reg::new(b, a) };
                merged = true;
            } else {
                i += 1;
            }
        }
        if !merged {
            break;
        }
    }
    let at = v.iter().position(|o| (o.min(), o.max()) > (r.min(), r.max())).unwrap_or(v.len());
    v.insert(at, r);
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub tab_size: usize,
    pub spaces: bool,
    pub tab_stops: bool,
    pub eol: String,
    pub pairs: Vec<(String, String)>,
    pub save_newline: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            tab_size: 4,
            spaces: true,
            tab_stops: true,
            eol: "\n".into(),
            pairs: vec![("\"".into(), "\"".into()), ("'".into(), "'".into()), ("{".into(), "}".into()), ("[".into(), "]".into())],
            save_newline: true,
        }
    }
}
impl Cfg {
    /// Reads the keys the model knows from an effective configuration table.
    pub fn apply(&mut self, t: &Value) {
        if let Some(n) = t["tab_size"].as_u64() {
            self.tab_size = n as usize;
        }
        if let Some(b) = t["translate_tabs_to_spaces"].as_bool() {
            self.spaces = b;
        }
        if let Some(b) = t["use_tab_stops"].as_bool() {
            self.tab_stops = b;
        }
        if let Some(b) = t["save_with_newline"].as_bool() {
            self.save_newline = b;
        }
        if let Some(s) = t["line_ending"].as_str() {
            self.eol = s.into();
        }
        if let Some(a) = t["surrounding_pairs"].as_array() {
            self.pairs = a.iter().map(|p| (p[0].as_str().unwrap_or("").into(), p[1].as_str().unwrap_or("").into())).collect();
        }
    }
    fn tab(&self, n: usize) -> String {
        if self.spaces {
            " ".repeat(n)
        } else {
            "\t".into()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Et {
    Other,
    Insert,
    Newline,
    Indent,
    Delete,
    Undo,
    Redo,
    Transpose,
    Surround,
}
#[derive(Clone)]
struct Snap {
    text: String,
    ids: Vec<u64>,
}
#[derive(Clone)]
struct Drag {
    base: Vec<Reg>,
    min: usize,
    max: usize,
    gran: String,
}
pub type Edit = (usize, usize, String);

#[derive(Clone)]
pub struct Model {
    pub text: String,
    pub ids: Vec<u64>,
    next_id: u64,
    pub sel: Vec<Reg>,
    drag: Option<Drag>,
    pub height: usize,
    pub first: usize,
    this: Et,
    last: Et,
    live: Vec<Snap>,
    cur: usize,
    force: bool,
    pub saved: Vec<u64>,
    /// commands recorded under a name
    pub edits: u64,
    /// history has been dropped since the last save
    pub dropped: bool,
    pub undone: u64,
}

const MAX_UNDOS: usize = 20;

// ------------------------------------------------------------ text primitives
pub fn prev_cp(t: &str, i: usize) -> Option<usize> {
    t[..i].chars().next_back().map(|c| i - c.len_utf8())
}
pub fn next_cp(t: &str, i: usize) -> Option<usize> {
    t[i..].chars().next().map(|c| i + c.len_utf8())
}
pub fn prev_gr(t: &str, i: usize) -> Option<usize> {
    let mut i = i;
    while !t.is_char_boundary(i) {
        i += 1;
    }
    if i == 0 {
        return None;
    }
    match GraphemeCursor::new(i, t.len(), true).prev_boundary(t, 0) {
        Ok(r) => r,
        Err(GraphemeIncomplete::PrevChunk) | Err(_) => None,
    }
}
pub fn next_gr(t: &str, i: usize) -> Option<usize> {
    if i >= t.len() {
        return None;
    }
    GraphemeCursor::new(i, t.len(), true).next_boundary(t, 0).unwrap_or(None)
}
pub fn line_of(t: &str, off: usize) -> usize {
    t.as_bytes()[..off.min(t.len())].iter().filter(|b| **b == b'\n').count()
}
pub fn line_start(t: &str, line: usize) -> usize {
    if line == 0 {
        return 0;
    }
    let mut n = 0;
    for (i, b) in t.bytes().enumerate() {
        if b == b'\n' {
            n += 1;
            if n == line {
                return i + 1;
            }
        }
    }
    t.len()
}
pub fn offset_at(t: &str, line: usize, col: usize) -> usize {
    let mut off = line_start(t, line).saturating_add(col);
    if off >= t.len() {
        off = t.len();
        if line_of(t, off) <= line {
            return off;
        }
    } else {
        off = prev_gr(t, off + 1).unwrap_or(0);
    }
    let next = line_start(t, line.saturating_add(1));
    if off >= next {
        off = prev_gr(t, next).unwrap_or(off);
    }
    off
}
fn line_range(t: &str, r: &Reg) -> std::ops::Range<usize> {
    let a = line_of(t, r.min());
    let mut b = line_of(t, r.max());
    if r.max() == line_start(t, b) && b > a {
        b -= 1;
    }
    a..b + 1
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum W {
    Lf,
    Sp,
    Pu,
    Ot,
}
fn wprop(c: char) -> W {
    match c {
        '\n' => W::Lf,
        c if c <= ' ' => W::Sp,
        '!' | '"' | '#' | '$' | '%' | '&' | '\'' | '(' | ')' | '*' | '+' | ',' | '-' | '.' | '/' | ':' | ';' | '<' | '=' | '>' | '?' => W::Pu,
        '@' | '[' | '\\' | ']' | '^' | '`' | '{' | '|' | '}' | '~' => W::Pu,
        _ => W::Ot,
    }
}
/// (starts a word, ends a word)
fn wb(p: W, n: W) -> (bool, bool) {
    match (p, n) {
        (W::Lf, _) | (_, W::Lf) => (true, true),
        (W::Sp, W::Ot) | (W::Sp, W::Pu) | (W::Pu, W::Ot) => (true, false),
        (W::Ot, W::Sp) | (W::Pu, W::Sp) | (W::Ot, W::Pu) => (false, true),
        _ => (false, false),
    }
}
fn wb0(p: W, n: W) -> (bool, bool) {
    match (p, n) {
        (W::Lf, W::Ot) => (true, false),
        (W::Ot, W::Lf) => (false, true),
        (W::Lf, W::Sp) | (W::Lf, W::Pu) | (W::Sp, W::Lf) | (W::Pu, W::Lf) => (false, false),
        (W::Sp, W::Pu) | (W::Pu, W::Sp) => (false, false),
        _ => wb(p, n),
    }
}
fn before(t: &str, i: usize) -> Option<W> {
    t[..i].chars().next_back().map(wprop)
}
fn after(t: &str, i: usize) -> Option<W> {
    t[i..].chars().next().map(wprop)
}
pub fn word_left(t: &str, i: usize) -> Option<usize> {
    let mut p = prev_cp(t, i)?;
    while let (Some(b), Some(a)) = (before(t, p), after(t, p)) {
        if wb(b, a).0 {
            break;
        }
        p = prev_cp(t, p).unwrap();
    }
    Some(p)
}
pub fn word_right(t: &str, i: usize) -> Option<usize> {
    let mut p = next_cp(t, i)?;
    while let (Some(b), Some(a)) = (before(t, p), after(t, p)) {
        if wb(b, a).1 {
            break;
        }
        p = next_cp(t, p).unwrap();
    }
    Some(p)
}
pub fn word_at(t: &str, i: usize) -> (usize, usize) {
    let init = match (before(t, i), after(t, i)) {
        (Some(b), Some(a)) => wb0(b, a),
        _ => (true, true),
    };
    let any = init.0 || init.1;
    let mut s = i;
    if i == t.len() {
        if let Some(p) = prev_cp(t, i) {
            s = p;
        }
    }
    while let (Some(b), Some(a)) = (before(t, s), after(t, s)) {
        let k = wb(b, a);
        let stop = if s == i { init.0 } else if !any { k.0 || k.1 } else { k.0 };
        if stop {
            break;
        }
        s = prev_cp(t, s).unwrap();
    }
    let mut e = i;
    if i == 0 {
        if let Some(p) = next_cp(t, 0) {
            e = p;
        }
    }
    while let (Some(b), Some(a)) = (before(t, e), after(t, e)) {
        let k = wb(b, a);
        let stop = if e == i { init.1 } else if !any { k.0 || k.1 } else { k.1 };
        if stop {
            break;
        }
        e = next_cp(t, e).unwrap();
    }
    (s, e)
}
/// Where a backspace at a caret starts deleting.
fn backspace(t: &str, r: &Reg, c: &Cfg) -> usize {
    if !r.is_caret() {
        return r.min();
    }
    let p = r.start;
    let col = p - line_start(t, line_of(t, p));
    let ts = c.tab_size.max(1);
    let n = if col % ts == 0 { ts } else { col % ts };
    let from = p.saturating_sub(n);
    if p > 0 && c.spaces && c.tab_stops && t.as_bytes()[from..p].iter().all(|b| *b == b' ') {
        return from;
    }
    let cps: Vec<char> = t[..p].chars().rev().take(64).collect();
    let n = back_cps(&cps);
    let mut s = p;
    for _ in 0..n {
        s = prev_cp(t, s).unwrap_or(0);
    }
    s
}
/// How many code points (given last first) one backspace removes.
fn back_cps(v: &[char]) -> usize {
    let at = |i: usize| v.get(i).cloned();
    let c = match at(0) {
        None => return 0,
        Some(c) => c,
    };
    let tail = |i: usize| emoji_tail(v, i);
    if c == '\n' {
        return if at(1) == Some('\r') { 2 } else { 1 };
    }
    if is_variation_selector(c) {
        return match at(1) {
            Some(d) if d.is_emoji() => 2 + tail(2),
            Some(d) if !is_variation_selector(d) => 2,
            _ => 1,
        };
    }
    if c.is_regional_indicator_symbol() {
        let n = v.iter().take_while(|c| c.is_regional_indicator_symbol()).count();
        return if n % 2 == 0 { 2 } else { 1 };
    }
    if c.is_emoji_modifier() {
        return modifier(v, 1) + 1;
    }
    if c.is_emoji_combining_enclosing_keycap() {
        return match at(1) {
            Some(d) if is_variation_selector(d) => match at(2) {
                Some(e) if is_keycap_base(e) => 3,
                _ => 1,
            },
            Some(d) if is_keycap_base(d) => 2,
            _ => 1,
        };
    }
    if c.is_emoji() {
        return 1 + tail(1);
    }
    if c.is_emoji_cancel_tag() {
        let mut i = 1;
        while at(i).map_or(false, |c| c.is_tag_spec_char()) {
            i += 1;
        }
        return match at(i) {
            None => i,
            Some(c) if c.is_emoji() => i + 1,
            _ => 1,
        };
    }
    1
}
fn modifier(v: &[char], i: usize) -> usize {
    match v.get(i) {
        Some(c) if is_variation_selector(*c) => match v.get(i + 1) {
            Some(d) if d.is_emoji_modifier_base() => 2,
            _ => 0,
        },
        Some(c) if c.is_emoji_modifier_base() => 1,
        _ => 0,
    }
}
/// Further code points after an emoji: zero width joiner sequences.
fn emoji_tail(v: &[char], i: usize) -> usize {
    match v.get(i) {
        Some(c) if c.is_zwj() => match v.get(i + 1) {
            Some(d) if d.is_emoji() => 2 + if d.is_emoji_modifier() { modifier(v, i + 2) } else { emoji_tail(v, i + 2) },
            Some(d) if is_variation_selector(*d) => match v.get(i + 2) {
                Some(e) if e.is_emoji() => 3 + emoji_tail(v, i + 3),
                _ => 0,
            },
            _ => 0,
        },
        _ => 0,
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Drift {
    Default,
    Inside,
    Outside,
}

impl Model {
    pub fn new(text: &str) -> Model {
        let ids: Vec<u64> = (1..=text.len() as u64).collect();
        let n = ids.len() as u64 + 1;
        Model {
            text: text.into(),
            ids: ids.clone(),
            next_id: n,
            sel: vec![Reg::caret(0)],
            drag: None,
            height: 10,
            first: 0,
            this: Et::Other,
            last: Et::Other,
            live: vec![Snap { text: text.into(), ids: ids.clone() }],
            cur: 1,
            force: false,
            saved: ids,
            edits: 0,
            dropped: false,
            undone: 0,
        }
    }
    pub fn pristine(&self) -> bool {
        self.ids == self.saved
    }
    pub fn mark_saved(&mut self) {
        self.saved = self.ids.clone();
        self.dropped = false;
    }
    /// Whether the front-end may be told `p`: a document that differs from what was saved is never
    /// called pristine, and one that does not is, unless the history that would tell has been dropped.
    pub fn pristine_ok(&self, p: bool) -> bool {
        p == self.pristine() || (!p && self.dropped)
    }
    pub fn lines(&self) -> usize {
        line_of(&self.text, self.text.len()) + 1
    }
    pub fn text_for_save(&self, c: &Cfg) -> String {
        let mut s = self.text.clone();
        if !s.is_empty() && c.save_newline && !s.ends_with(&c.eol) {
            s.push_str(&c.eol);
        }
        s
    }
    /// Undo groups that can be undone, and redone.
    pub fn depth(&self) -> (usize, usize) {
        (self.cur - 1, self.live.len() - self.cur)
    }

    fn new_group(&mut self) {
        if !self.force && (self.live.is_empty() || self.this == Et::Other || self.this == Et::Transpose || self.this != self.last) {
            if self.cur < self.live.len() || self.live.len() >= MAX_UNDOS {
                self.dropped = true;
            }
            self.live.truncate(self.cur);
            self.live.push(Snap { text: self.text.clone(), ids: self.ids.clone() });
            if self.live.len() <= MAX_UNDOS {
                self.cur += 1;
            } else {
                self.live.remove(0);
            }
        }
    }
    /// Applies edits given in order of position.
    pub fn splice(&mut self, edits: &[Edit]) {
        let mut t = String::new();
        let mut ids = Vec::new();
        let mut at = 0;
        for (s, e, ins) in edits {
            assert!(*s >= at && e >= s, "model: overlapping edits");
            t.push_str(&self.text[at..*s]);
            ids.extend_from_slice(&self.ids[at..*s]);
            t.push_str(ins);
            for _ in 0..ins.len() {
                ids.push(self.next_id);
                self.next_id += 1;
            }
            at = *e;
        }
        t.push_str(&self.text[at..]);
        ids.extend_from_slice(&self.ids[at..]);
        self.text = t;
        self.ids = ids;
    }
    fn add_delta(&mut self, edits: &[Edit]) {
        self.edits += 1;
        self.new_group();
        self.last = self.this;
        self.splice(edits);
        let s = Snap { text: self.text.clone(), ids: self.ids.clone() };
        *self.live.last_mut().unwrap() = s;
    }
    fn transform(old: &[u64], pos: &std::collections::HashMap<u64, usize>, len: usize, ix: usize, aft: bool) -> usize {
        if !aft {
            if ix == 0 {
                return 0;
            }
            if let Some(p) = pos.get(&old[ix - 1]) {
                return p + 1;
            }
        }
        old[ix..].iter().find_map(|i| pos.get(i).cloned()).unwrap_or(len)
    }
    /// Moves the selections along with the text they were in.
    fn follow(&mut self, old: &[u64], drift: Drift) {
        let pos: std::collections::HashMap<u64, usize> = self.ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let n = self.ids.len();
        let mut v = Vec::new();
        for r in self.sel.clone() {
            let fwd = r.start < r.end;
            let (a, b) = match (drift, r.is_caret()) {
                (Drift::Inside, false) => (!fwd, fwd),
                (Drift::Outside, false) => (fwd, !fwd),
                _ => (true, true),
            };
            add_region(&mut v, Reg::new(Self::transform(old, &pos, n, r.start, a), Self::transform(old, &pos, n, r.end, b)));
        }
        self.sel = v;
        self.drag = None;
        self.scroll_to_cursor();
    }
    fn scroll_to_cursor(&mut self) {
        let l = line_of(&self.text, self.sel.last().unwrap().end);
        if l < self.first {
            self.first = l;
        } else if self.first.saturating_add(self.height) <= l {
            self.first = l - self.height.saturating_sub(1);
        }
    }
    fn set_sel(&mut self, v: Vec<Reg>) {
        self.sel = v;
        self.scroll_to_cursor();
    }

    // ------------------------------------------------------------ movement
    fn vert(&self, r: &Reg, delta: isize, modify: bool) -> (usize, Option<usize>) {
        let t = &self.text;
        let act = if modify { r.end } else if delta < 0 { r.min() } else { r.max() };
        let line = line_of(t, act);
        let col = r.horiz.unwrap_or_else(|| act - line_start(t, line));
        let last = line_of(t, t.len());
        if delta < 0 && (-delta) as usize > line {
            return (0, Some(col));
        }
        let l = if delta < 0 { line - (-delta) as usize } else { line.saturating_add(delta as usize) };
        if l > last {
            return (t.len(), Some(col));
        }
        (offset_at(t, l, col), Some(col))
    }
    /// The nearest line above or below that is long enough for the caret.
    fn vert_exact(&self, r: &Reg, up: bool) -> (usize, Option<usize>) {
        let t = &self.text;
        let act = if up { r.min() } else { r.max() };
        let line = line_of(t, act);
        let last = line_of(t, t.len());
        let col = r.horiz.unwrap_or_else(|| act - line_start(t, line));
        let len = |l: usize| line_start(t, l + 1) - line_start(t, l);
        if up && line == 0 {
            return (offset_at(t, line, col), Some(col));
        }
        let col = if len(line) < col { len(line).saturating_sub(1) } else { col };
        let mut l = line;
        loop {
            if (up && l == 0) || (!up && l >= last) {
                l = line;
                break;
            }
            l = if up { l - 1 } else { l + 1 };
            if len(l) > col {
                break;
            }
        }
        (offset_at(t, l, col), Some(col))
    }
    fn mv(&self, m: &str, r: &Reg, modify: bool) -> Reg {
        let t = &self.text;
        let page = std::cmp::max(self.height as isize - 2, 1);
        let (off, horiz) = match m {
            "left" if r.is_caret() || modify => match prev_gr(t, r.end) {
                Some(o) => (o, None),
                None => (0, r.horiz),
            },
            "left" => (r.min(), None),
            "right" if r.is_caret() || modify => match next_gr(t, r.end) {
                Some(o) => (o, None),
                None => (r.end, r.horiz),
            },
            "right" => (r.max(), None),
            "word_left" => (word_left(t, r.end).unwrap_or(0), None),
            "word_right" => (word_right(t, r.end).unwrap_or(t.len()), None),
            "to_left_end_of_line" => (line_start(t, line_of(t, r.end)), None),
            "to_right_end_of_line" => {
                let l = line_of(t, r.end);
                (if l < line_of(t, t.len()) { prev_gr(t, line_start(t, l + 1)).unwrap_or(t.len()) } else { t.len() }, None)
            }
            "up" => self.vert(r, -1, modify),
            "down" => self.vert(r, 1, modify),
            "up_exact" => self.vert_exact(r, true),
            "down_exact" => self.vert_exact(r, false),
            "page_up" => self.vert(r, -page, modify),
            "page_down" => self.vert(r, page, modify),
            "to_beginning_of_paragraph" => {
                // from the start of a paragraph, to the start of the one before
                let l = line_of(t, r.end);
                let s = line_start(t, l);
                (if s < r.end || l == 0 { s } else { line_start(t, l - 1) }, None)
            }
            "to_end_of_paragraph" => {
                let l = line_of(t, r.end);
                (if l < line_of(t, t.len()) { prev_gr(t, line_start(t, l + 1)).unwrap_or(r.end) } else { t.len() }, None)
            }
            "kill" => {
                let l = line_of(t, r.end);
                (
                    if l < line_of(t, t.len()) {
                        let next = line_start(t, l + 1);
                        match prev_gr(t, next) {
                            Some(e) if e != r.end => e,
                            _ => next,
                        }
                    } else {
                        t.len()
                    },
                    None,
                )
            }
            "to_beginning_of_document" => (0, None),
            "to_end_of_document" => (t.len(), None),
            _ => panic!("model: movement {}", m),
        };
        Reg { start: if modify { r.start } else { off }, end: off, horiz }
    }
    fn move_all(&mut self, m: &str, modify: bool) {
        self.drag = None;
        let mut v = Vec::new();
        for r in &self.sel {
            let n = self.mv(m, r, modify);
            add_region(&mut v, n);
        }
        self.set_sel(v);
    }
    fn unit(&self, off: usize, gran: &str) -> (usize, usize) {
        match gran {
            "word" => word_at(&self.text, off),
            "line" => {
                let l = line_of(&self.text, off);
                (line_start(&self.text, l), line_start(&self.text, l + 1))
            }
            _ => (off, off),
        }
    }
    fn range(&self, a: usize, b: usize, off: usize, gran: &str) -> Reg {
        let u = self.unit(off, gran);
        if off >= a {
            Reg::new(a, u.1)
        } else {
            Reg::new(b, u.0)
        }
    }
    fn gesture(&mut self, line: usize, col: usize, ty: &Value) {
        let off = offset_at(&self.text, line, col);
        if let Some(s) = ty.get("select") {
            self.select(off, s["granularity"].as_str().unwrap(), s["multi"].as_bool().unwrap());
        } else if let Some(s) = ty.get("select_extend") {
            self.extend(off, s["granularity"].as_str().unwrap());
        } else {
            match ty.as_str().unwrap_or("") {
                "drag" => {
                    if let Some(d) = self.drag.clone() {
                        let mut v = d.base.clone();
                        add_region(&mut v, self.range(d.min, d.max, off, &d.gran));
                        self.set_sel(v);
                    }
                }
                "point_select" => self.select(off, "point", false),
                "toggle_sel" => self.select(off, "point", true),
                "word_select" => self.select(off, "word", false),
                "multi_word_select" => self.select(off, "word", true),
                "line_select" => self.select(off, "line", false),
                "multi_line_select" => self.select(off, "line", true),
                "range_select" => self.extend(off, "point"),
                o => panic!("model: gesture {}", o),
            }
        }
    }
    fn select(&mut self, off: usize, gran: &str, multi: bool) {
        if multi && gran == "point" {
            let keep: Vec<Reg> = self.sel.iter().filter(|r| off < r.min() || off > r.max()).cloned().collect();
            if keep.len() < self.sel.len() && !keep.is_empty() {
                self.drag = None;
                self.sel = keep; // no scrolling
                return;
            }
        }
        let (a, b) = self.unit(off, gran);
        let base = if multi { self.sel.clone() } else { vec![] };
        let mut v = base.clone();
        add_region(&mut v, Reg::new(a, b));
        self.set_sel(v);
        self.drag = Some(Drag { base, min: a, max: b, gran: gran.into() });
    }
    fn extend(&mut self, off: usize, gran: &str) {
        let last = *self.sel.last().unwrap();
        let base = self.sel[..self.sel.len() - 1].to_vec();
        let r = self.range(last.start, last.start, off, gran);
        let mut v = base.clone();
        add_region(&mut v, r);
        self.drag = Some(Drag { base, min: last.start, max: last.start, gran: gran.into() });
        self.set_sel(v);
    }

    // ------------------------------------------------------------ edits
    fn insert_all(&self, s: &str) -> Vec<Edit> {
        self.sel.iter().map(|r| (r.min(), r.max(), s.to_string())).collect()
    }
    fn delete_regions(v: &[Reg]) -> Vec<Edit> {
        v.iter().filter(|r| !r.is_caret()).map(|r| (r.min(), r.max(), String::new())).collect()
    }
    fn extract(&self, v: &[Reg]) -> Option<String> {
        let p: Vec<&str> = v.iter().filter(|r| !r.is_caret()).map(|r| &self.text[r.min()..r.max()]).collect();
        if p.is_empty() {
            None
        } else {
            Some(p.join("\n"))
        }
    }
    /// Nothing to do at all: no undo step arises.
    fn is_noop(&self, e: &[Edit]) -> bool {
        e.iter().all(|(a, b, s)| a == b && s.is_empty())
    }
    fn cond_delta(&mut self, et: Et, e: Vec<Edit>) {
        if !self.is_noop(&e) {
            self.this = et;
            self.add_delta(&e);
        }
    }
    fn delete_move(&mut self, m: &str, kill: Option<&mut String>) {
        let mut d = Vec::new();
        for r in &self.sel {
            let n = if r.is_caret() { self.mv(m, r, true) } else { *r };
            add_region(&mut d, n);
        }
        if let Some(k) = kill {
            *k = self.extract(&d).unwrap_or_default();
        }
        self.cond_delta(Et::Delete, Self::delete_regions(&d));
    }
    fn sel_lines(&self) -> std::collections::BTreeSet<usize> {
        self.sel.iter().flat_map(|r| line_range(&self.text, r)).collect()
    }
    fn tab_edits(&self, c: &Cfg) -> Vec<Edit> {
        let t = &self.text;
        let mut ind = std::collections::BTreeSet::new();
        let mut v: Vec<Edit> = Vec::new();
        for r in &self.sel {
            let lr = line_range(t, r);
            if lr.len() > 1 {
                ind.extend(lr);
            } else {
                let col = r.start - line_start(t, line_of(t, r.start));
                let ts = c.tab_size.max(1);
                v.push((r.min(), r.max(), c.tab(ts - col % ts)));
            }
        }
        for l in ind {
            let o = line_start(t, l);
            v.push((o, o, c.tab(c.tab_size.max(1))));
        }
        v.sort_by_key(|e| (e.0, e.1));
        v
    }
    fn outdent_edits(&self, c: &Cfg) -> Vec<Edit> {
        let t = &self.text;
        let tab = c.tab(c.tab_size.max(1));
        let mut v = vec![];
        for l in self.sel_lines() {
            let o = line_start(t, l);
            let e = offset_at(t, l, tab.len());
            let lead = &t[o..e];
            if lead == tab {
                v.push((o, e, String::new()));
            } else if let Some(n) = lead.find(|c: char| !c.is_whitespace()) {
                v.push((o, offset_at(t, l, n), String::new()));
            }
        }
        v
    }
    fn transpose_edits(&self) -> Vec<Edit> {
        let t = &self.text;
        let mut v: Vec<Edit> = vec![];
        let mut last = 0;
        let mut carry: Option<String> = self.sel.iter().rev().find(|r| !r.is_caret()).map(|r| t[r.min()..r.max()].to_string());
        for (i, r) in self.sel.iter().enumerate() {
            if r.is_caret() {
                let p = r.end;
                let mut mid = p;
                let mut s = prev_gr(t, p).unwrap_or(0);
                let mut e = next_gr(t, p).unwrap_or(p);
                if s < last {
                    continue;
                }
                let eol = line_start(t, line_of(t, e));
                if (e == mid || e == eol) && e != t.len() {
                    e = mid;
                    mid = s;
                    s = prev_gr(t, mid).unwrap_or(0);
                }
                let lim = self.sel.get(i + 1).map_or(t.len(), |n| n.min());
                if s < last || (e > lim && !self.sel[i + 1].is_caret()) {
                    continue;
                }
                v.push((s, e, format!("{}{}", &t[mid..e], &t[s..mid])));
                last = e;
            } else {
                v.push((r.min(), r.max(), carry.take().unwrap()));
                carry = Some(t[r.min()..r.max()].to_string());
                last = r.max();
            }
        }
        v
    }
    fn number_edits(&self, up: bool) -> Vec<Edit> {
        let t = &self.text;
        let mut v: Vec<Edit> = vec![];
        for r in &self.sel {
            let (mut s, e) = word_at(t, r.end);
            if s > 0 && t.as_bytes()[s - 1] == b'-' {
                s -= 1;
            }
            if v.last().map_or(false, |l| s < l.1) {
                continue;
            }
            if let Ok(n) = t[s..e].parse::<i128>() {
                if let Some(n) = if up { n.checked_add(1) } else { n.checked_sub(1) } {
                    v.push((s, e, n.to_string()));
                }
            }
        }
        v
    }
    fn capital_edits(&self) -> Vec<Edit> {
        let t = &self.text;
        let mut v: Vec<Edit> = vec![];
        for r in &self.sel {
            let mut p = r.min();
            loop {
                let (s, e) = word_at(t, p);
                p = e;
                if s < e && v.last().map_or(true, |l| s >= l.1) {
                    let w = &t[s..e];
                    let n = w.chars().next().unwrap().len_utf8();
                    v.push((s, e, format!("{}{}", w[..n].to_uppercase(), w[n..].to_lowercase())));
                }
                match word_right(t, p) {
                    None => break,
                    Some(q) => {
                        if e > r.max() {
                            break;
                        }
                        p = q;
                    }
                }
            }
        }
        v
    }
    fn dup_edits(&self, c: &Cfg) -> Vec<Edit> {
        let t = &self.text;
        let mut set = std::collections::BTreeSet::new();
        for r in &self.sel {
            let a = line_of(t, r.min());
            let b = line_of(t, r.max());
            set.insert((line_start(t, a), line_start(t, b + 1)));
        }
        set.into_iter()
            .map(|(s, e)| {
                let mut x = t[s..e].to_string();
                if !x.ends_with('\n') {
                    x.push_str(&c.eol);
                }
                (s, s, x)
            })
            .collect()
    }
    fn split_lines(&mut self) {
        let t = &self.text;
        let mut v = Vec::new();
        for r in &self.sel {
            if r.is_caret() {
                add_region(&mut v, Reg::caret(r.max()));
                continue;
            }
            let mut p = r.min();
            while p < r.max() {
                let next = line_start(t, line_of(t, p) + 1);
                let last = line_of(t, p) == line_of(t, t.len());
                let e = if last { t.len() } else { next - 1 };
                add_region(&mut v, Reg::new(p, e.min(r.max())));
                if last {
                    break;
                }
                p = next;
            }
        }
        self.sel = v; // no scrolling
    }

    /// Performs one command. `kill` is the clipboard that all buffers share.
    pub fn cmd(&mut self, m: &str, p: &Value, c: &Cfg, kill: &mut String) -> Value {
        let old = self.ids.clone();
        let old_text = self.text.clone();
        let n_edits = (self.edits, self.undone);
        let mut out = Value::Null;
        let mut view = true;
        match m {
            "move_up" | "move_down" | "move_left" | "move_right" | "move_word_left" | "move_word_right" | "move_to_beginning_of_paragraph"
            | "move_to_end_of_paragraph" | "move_to_left_end_of_line" | "move_to_right_end_of_line" | "move_to_beginning_of_document"
            | "move_to_end_of_document" => self.move_all(&m[5..], false),
            "move_backward" => self.move_all("left", false),
            "move_forward" => self.move_all("right", false),
            "scroll_page_up" => self.move_all("page_up", false),
            "scroll_page_down" => self.move_all("page_down", false),
            "page_up_and_modify_selection" => self.move_all("page_up", true),
            "page_down_and_modify_selection" => self.move_all("page_down", true),
            _ if m.starts_with("move_") && m.ends_with("_and_modify_selection") => {
                let n = m[5..m.len() - "_and_modify_selection".len()].to_string();
                self.move_all(&n, true)
            }
            "select_all" => self.sel = vec![Reg::new(0, self.text.len())],
            "add_selection_above" | "add_selection_below" => {
                let k = if m.ends_with("above") { "up_exact" } else { "down_exact" };
                let mut v = Vec::new();
                for r in self.sel.clone() {
                    add_region(&mut v, r);
                    let n = self.mv(k, &r, false);
                    add_region(&mut v, n);
                }
                self.set_sel(v);
            }
            "gesture" => self.gesture(p["line"].as_u64().unwrap() as usize, p["col"].as_u64().unwrap() as usize, &p["ty"]),
            "click" => {
                let (l, col, fl, n) = (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize, p[2].as_u64().unwrap(), p[3].as_u64());
                let off = offset_at(&self.text, l, col);
                if fl & 2 != 0 {
                    self.extend(off, "point")
                } else {
                    self.select(off, match n { Some(2) => "word", Some(3) => "line", _ => "point" }, false)
                }
            }
            "drag" => self.gesture(p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize, &Value::from("drag")),
            "goto_line" => {
                let o = offset_at(&self.text, p["line"].as_u64().unwrap() as usize, 0);
                self.set_sel(vec![Reg::caret(o)]);
            }
            "scroll" => {
                let a = p[0].as_i64().unwrap().max(0) as usize;
                let b = p[1].as_i64().unwrap().max(0) as usize;
                self.first = a;
                self.height = b.saturating_sub(a);
            }
            "collapse_selections" => {
                let mut r = self.sel[0];
                r.start = r.end;
                self.set_sel(vec![r]);
            }
            "selection_into_lines" => self.split_lines(),
            "find" | "multi_find" | "find_next" | "find_previous" | "find_all" | "highlight_find" | "selection_for_find" | "replace"
            | "selection_for_replace" => {}
            _ => view = false,
        }
        if view {
            self.last = self.this;
            self.this = Et::Other;
            return out;
        }
        match m {
            "insert" => {
                let s = p["chars"].as_str().unwrap();
                let pair = c.pairs.iter().find(|x| x.0 == s);
                if let (Some(pr), false) = (pair, self.sel.iter().any(|r| r.is_caret())) {
                    let mut e: Vec<Edit> = Vec::new();
                    for r in &self.sel {
                        e.push((r.min(), r.min(), pr.0.clone()));
                        e.push((r.max(), r.max(), pr.1.clone()));
                    }
                    self.this = Et::Surround;
                    self.add_delta(&e);
                } else {
                    self.this = Et::Insert;
                    let e = self.insert_all(s);
                    self.add_delta(&e);
                }
            }
            "paste" => {
                let s = p["chars"].as_str().unwrap();
                let n = s.bytes().filter(|b| *b == b'\n').count() + if s.ends_with('\n') { 0 } else { 1 };
                let e = if self.sel.len() == 1 || self.sel.len() != n {
                    self.insert_all(s)
                } else {
                    self.sel.iter().zip(s.lines()).map(|(r, l)| (r.min(), r.max(), l.to_string())).collect()
                };
                self.add_delta(&e);
            }
            "yank" => {
                let e = self.insert_all(kill);
                self.add_delta(&e);
            }
            "delete_forward" => self.delete_move("right", None),
            "delete_word_forward" => self.delete_move("word_right", None),
            "delete_word_backward" => self.delete_move("word_left", None),
            "delete_to_end_of_paragraph" => self.delete_move("kill", Some(kill)),
            "delete_to_beginning_of_line" => self.delete_move("to_left_end_of_line", None),
            "delete_backward" => {
                let mut d = Vec::new();
                for r in &self.sel {
                    let s = backspace(&self.text, r, c);
                    add_region(&mut d, Reg::new(s, r.max()));
                }
                self.cond_delta(Et::Delete, Self::delete_regions(&d));
            }
            "insert_newline" => {
                let e = self.insert_all(&c.eol);
                self.add_delta(&e);
                self.this = Et::Newline;
            }
            "insert_tab" => {
                let multi = self.sel.len() > 1 || line_range(&self.text, &self.sel[0]).len() > 1;
                let e = self.tab_edits(c);
                self.add_delta(&e);
                self.this = if multi { Et::Indent } else { Et::Insert };
            }
            "indent" => {
                let e: Vec<Edit> = self
                    .sel_lines()
                    .into_iter()
                    .map(|l| {
                        let o = line_start(&self.text, l);
                        (o, o, c.tab(c.tab_size.max(1)))
                    })
                    .collect();
                self.add_delta(&e);
                self.this = Et::Insert;
            }
            "outdent" => {
                let e = self.outdent_edits(c);
                self.add_delta(&e);
                self.this = Et::Delete;
            }
            "transpose" => {
                let e = self.transpose_edits();
                self.cond_delta(Et::Transpose, e);
            }
            "uppercase" | "lowercase" => {
                let e: Vec<Edit> = self
                    .sel
                    .iter()
                    .map(|r| {
                        let s = &self.text[r.min()..r.max()];
                        (r.min(), r.max(), if m == "uppercase" { s.to_uppercase() } else { s.to_lowercase() })
                    })
                    .collect();
                self.cond_delta(Et::Other, e);
            }
            "capitalize" => {
                let mut f = Vec::new();
                for r in &self.sel {
                    add_region(&mut f, Reg::caret(r.max()));
                }
                let e = self.capital_edits();
                let noop = self.is_noop(&e);
                self.sel = f;
                if !noop {
                    self.this = Et::Other;
                    self.add_delta(&e);
                } else {
                    self.scroll_to_cursor();
                }
            }
            "duplicate_line" => {
                let e = self.dup_edits(c);
                self.add_delta(&e);
                self.this = Et::Other;
            }
            "increase_number" | "decrease_number" => {
                let e = self.number_edits(m == "increase_number");
                self.cond_delta(Et::Other, e);
            }
            "cut" | "copy" => {
                out = self.extract(&self.sel.clone()).map_or(Value::Null, Value::from);
                if m == "cut" {
                    let e = Self::delete_regions(&self.sel);
                    self.cond_delta(Et::Delete, e);
                }
            }
            "undo" => {
                if self.cur > 1 {
                    self.cur -= 1;
                    self.jump(Et::Undo);
                }
            }
            "redo" => {
                if self.cur < self.live.len() {
                    self.cur += 1;
                    self.jump(Et::Redo);
                }
            }
            "resize" | "request_lines" | "request_hover" | "debug_rewrap" | "debug_wrap_width" | "debug_print_spans" | "reindent"
            | "debug_toggle_comment" | "toggle_recording" | "clear_recording" => {}
            o => panic!("model: command {}", o),
        }
        let _ = old_text;
        if (self.edits, self.undone) != n_edits {
            self.commit(&old);
        }
        out
    }
    fn commit(&mut self, old: &[u64]) {
        let drift = match self.this {
            Et::Transpose => Drift::Inside,
            Et::Surround => Drift::Outside,
            _ => Drift::Default,
        };
        self.follow(old, drift);
        self.last = self.this;
        self.this = Et::Other;
    }
    fn jump(&mut self, et: Et) {
        self.undone += 1;
        let s = self.live[self.cur - 1].clone();
        self.text = s.text;
        self.ids = s.ids;
        self.this = et;
    }
    /// An edit that does not come from a command (reloading a file): its own undo step.
    pub fn external(&mut self, edits: &[Edit]) {
        let old = self.ids.clone();
        self.add_delta(edits);
        self.commit(&old);
    }
    /// Plays commands as one undo step.
    pub fn play(&mut self, cmds: &[(String, Value)], c: &Cfg, kill: &mut String) {
        self.last = self.this;
        self.this = Et::Other;
        self.new_group();
        self.force = true;
        for (m, p) in cmds {
            self.cmd(m, p, c, kill);
        }
        self.force = false;
        self.last = self.this;
        self.this = Et::Other;
    }
    /// Cursor columns of a line, as a front-end shows them.
    pub fn cursors(&self, line: usize) -> Vec<usize> {
        let s = line_start(&self.text, line);
        let e = line_start(&self.text, line + 1);
        let last = self.text.len();
        self.sel.iter().map(|r| r.end).filter(|c| (*c >= s && *c < e) || (*c == e && *c == last && (e == s || line + 1 == self.lines()))).map(|c| c - s).collect()
    }
    /// Selected column ranges of a line.
    pub fn spans(&self, line: usize) -> Vec<(usize, usize)> {
        let s = line_start(&self.text, line);
        let e = line_start(&self.text, line + 1);
        self.sel.iter().map(|r| (r.min().clamp(s, e) - s, r.max().clamp(s, e) - s)).filter(|(a, b)| a < b).collect()
    }
}
