//! Replicas of a document that exchange their states over a bad network (C22), and the history engine
//! that forgets against one that never does (part of C10).
use crate::driver::Prop;
use crate::rt::*;
use crate::{slog, violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use xi_rope::engine::Engine;
use xi_rope::{DeltaBuilder, Interval, Rope, RopeInfo};

fn fresh(n: &mut u32, k: u64) -> String {
    (0..k)
        .map(|_| {
            *n += 1;
            char::from_u32(match *n % 3 {
                0 => 0x4e00 + *n,
                1 => 0x3400 + *n,
                _ => 0x20000 + *n,
            })
            .unwrap()
        })
        .collect()
}
fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn order_kept(a: &str, b: &str) -> bool {
    let (x, y) = (chars(a), chars(b));
    let sx: BTreeSet<char> = x.iter().copied().collect();
    let sy: BTreeSet<char> = y.iter().copied().collect();
    x.iter().filter(|c| sy.contains(c)).eq(y.iter().filter(|c| sx.contains(c)))
}
/// Turns op["els"] (start, delete, insert; in characters) into a delta on `base` and the resulting text.
fn build(base: &str, els: &Value, n: &mut u32) -> (xi_rope::Delta<RopeInfo>, String, String) {
    let cs: Vec<usize> = base.char_indices().map(|c| c.0).chain(Some(base.len())).collect();
    let len = cs.len() - 1;
    let mut d: DeltaBuilder<RopeInfo> = DeltaBuilder::new(base.len());
    let (mut out, mut at, mut ins_all, mut any) = (String::new(), 0usize, String::new(), false);
    for e in els.as_array().unwrap() {
        let a = (e[0].as_u64().unwrap() as usize).min(len);
        let b = (a + e[1].as_u64().unwrap() as usize).min(len);
        if a < at || (any && a == at) {
            continue;
        }
        any = true;
        let ins = fresh(n, e[2].as_u64().unwrap());
        d.replace(Interval::new(cs[a], cs[b]), Rope::from(ins.as_str()));
        out.push_str(&base[cs[at]..cs[a]]);
        out.push_str(&ins);
        ins_all.push_str(&ins);
        at = b;
    }
    out.push_str(&base[cs[at]..]);
    (d.build(), out, ins_all)
}
fn gen_els(r: &mut Rng) -> Value {
    let mut els = Vec::new();
    let mut at = 0;
    for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
        at += r.below(7);
        let del = *r.pick(&[0u64, 0, 0, 1, 3, 20]);
        els.push(json!([at, del, *r.pick(&[0u64, 1, 1, 2, 5])]));
        at += del;
    }
    json!(els)
}

// ------------------------------------------------------------ C22

fn gen_c22(r: &mut Rng, th: bool) -> Value {
    let n = *r.pick(&[2u64, 2, 3, 3, 4]);
    let m = r.range(4, if th { 60 } else { 36 });
    let lossy = r.below(3) > 0;
    let mut ops = Vec::new();
    if r.below(2) == 0 {
        ops.push(json!({"k": "type", "r": 0, "at": 0, "n": r.range(1, 8)}));
        for i in 1..n {
            ops.push(json!({"k": "sync", "r": 0, "to": i}));
        }
    }
    for _ in 0..m {
        let a = r.below(n);
        ops.push(match r.below(12) {
            0..=2 => json!({"k": "edit", "r": a, "back": if r.below(3) > 0 { 0 } else { r.below(5) }, "els": gen_els(r), "prio": *r.pick(&[1u64, 1, 1, 0, 2, 0x10000])}),
            3..=5 => json!({"k": "type", "r": a, "at": r.below(12), "n": r.range(1, 5)}),
            6 => json!({"k": "crash", "r": a, "keep": r.below(2) == 0}),
            7 => json!({"k": "part", "a": a, "on": r.below(2) == 0}),
            8 => json!({"k": "net"}),
            _ => json!({"k": "send", "r": a, "to": r.below(n)}),
        });
    }
    json!({"n": n, "ops": ops, "lossy": lossy, "ring": r.below(2) == 0})
}
#[derive(Clone, Default)]
struct Known {
    ins: BTreeSet<char>,
    del: BTreeSet<char>,
}
struct Rep {
    e: Engine,
    session: u64,
    know: Known,
    hist: Vec<(u64, String)>,
    disk: Option<(Vec<u8>, Known)>,
}
impl Rep {
    fn text(&self) -> String {
        String::from(self.e.get_head())
    }
    fn fresh(session: u64) -> Rep {
        let mut e = Engine::empty();
        e.set_session_id((session, 7 * session as u32));
        let t = e.get_head_rev_id().token();
        Rep { e, session, know: Known::default(), hist: vec![(t, String::new())], disk: None }
    }
    fn state(&self) -> Vec<u8> {
        serde_json::to_vec(&self.e).unwrap()
    }
    fn check(&mut self, i: usize, what: &str) {
        let t = self.text();
        let have: BTreeSet<char> = t.chars().collect();
        let want: BTreeSet<char> = &self.know.ins - &self.know.del;
        if have.len() != t.chars().count() {
            violation!("twice", "{}: replica {} has a character more than once: {}", what, i, t);
        }
        if have != want {
            let lost: String = (&want - &have).into_iter().collect();
            let more: String = (&have - &want).into_iter().collect();
            violation!("characters", "{}: replica {} has {:?}; {:?} is missing and {:?} should not be there", what, i, t, lost, more);
        }
        for (_, h) in self.hist.iter().rev().take(12) {
            if !order_kept(h, &t) {
                violation!("reordered", "{}: replica {} had {:?} and now has {:?}", what, i, h, t);
            }
        }
        let tok = self.e.get_head_rev_id().token();
        if self.hist.last().map(|h| h.0) != Some(tok) {
            self.hist.push((tok, t));
        }
    }
}
struct Msg {
    to: usize,
    from: usize,
    state: Vec<u8>,
    know: Known,
    text: String,
}
fn receive(reps: &mut [Rep], m: &Msg) {
    let other: Engine = match serde_json::from_slice(&m.state) {
        Ok(e) => e,
        Err(e) => violation!("state", "a serialized document cannot be read back: {}", e),
    };
    if String::from(other.get_head()) != m.text {
        violation!("state", "a document was serialized as {:?} and read back as {:?}", m.text, String::from(other.get_head()));
    }
    let r = &mut reps[m.to];
    r.e.merge(&other);
    r.know.ins.extend(&m.know.ins);
    r.know.del.extend(&m.know.del);
    slog!("replica {} merges {}: {}", m.to, m.from, r.text());
    note("merges", 1);
    let what = format!("after merging a state of replica {}", m.from);
    r.check(m.to, &what);
    if !order_kept(&m.text, &r.text()) {
        violation!("reordered", "replica {} merged {:?} of replica {} and has {:?}", m.to, m.text, m.from, r.text());
    }
    sig(r.text().len() as u64);
}
fn run_c22(sc: &Value) {
    let n = sc["n"].as_u64().unwrap() as usize;
    let mut cnt = 0u32;
    let mut sessions = n as u64;
    let mut reps: Vec<Rep> = (0..n).map(|i| Rep::fresh(1 + i as u64)).collect();
    let mut net: Vec<Msg> = Vec::new();
    let mut cut: BTreeSet<usize> = BTreeSet::new();
    // typed runs: characters, and the states (knowledge) in which they were typed
    let mut runs: Vec<(String, usize)> = Vec::new();
    let mut saw: BTreeMap<char, BTreeSet<char>> = BTreeMap::new();
    let mut texts: Vec<String> = Vec::new();
    let post = |reps: &mut Vec<Rep>, net: &mut Vec<Msg>, from: usize, to: usize| {
        let r = &mut reps[from];
        // a state leaves only after it has been stored
        let s = r.state();
        r.disk = Some((s.clone(), r.know.clone()));
        let m = Msg { to, from, state: s, know: r.know.clone(), text: r.text() };
        net.push(m);
    };
    let mut lose_dead: BTreeSet<char> = BTreeSet::new();
    for op in sc["ops"].as_array().unwrap() {
        slog!("op {}", op);
        let a = (op["r"].as_u64().unwrap_or(0) as usize).min(n - 1);
        match op["k"].as_str().unwrap() {
            "edit" => {
                let r = &mut reps[a];
                let h = r.hist[r.hist.len() - 1 - (op["back"].as_u64().unwrap() as usize).min(r.hist.len() - 1)].clone();
                let (d, new, ins) = build(&h.1, &op["els"], &mut cnt);
                let g = r.e.max_undo_group_id() + 1;
                r.e.edit_rev(op["prio"].as_u64().unwrap() as usize, g, h.0, d);
                for c in h.1.chars() {
                    if !new.contains(c) {
                        r.know.del.insert(c);
                    }
                }
                for c in ins.chars() {
                    saw.insert(c, r.know.ins.clone());
                }
                r.know.ins.extend(ins.chars());
                note("edits", 1);
                note("nontrivial", 1);
                slog!("replica {} edits {:?} into {:?}: {}", a, h.1, new, r.text());
                r.check(a, "after an edit");
                if !order_kept(&new, &r.text()) {
                    violation!("misplaced", "replica {} made {:?} of {:?} and has {:?}", a, new, h.1, r.text());
                }
                texts.push(r.text());
            }
            "type" => {
                let r = &mut reps[a];
                let mut run = String::new();
                let mut at = (op["at"].as_u64().unwrap() as usize).min(r.text().chars().count());
                for _ in 0..op["n"].as_u64().unwrap() {
                    let t = r.text();
                    let b = t.char_indices().nth(at).map_or(t.len(), |c| c.0);
                    let c = fresh(&mut cnt, 1);
                    let mut d: DeltaBuilder<RopeInfo> = DeltaBuilder::new(t.len());
                    d.replace(Interval::new(b, b), Rope::from(c.as_str()));
                    let g = r.e.max_undo_group_id() + 1;
                    let base = r.e.get_head_rev_id().token();
                    r.e.edit_rev(0x10000, g, base, d.build());
                    saw.insert(c.chars().next().unwrap(), r.know.ins.clone());
                    r.know.ins.extend(c.chars());
                    run.push_str(&c);
                    let mut want = t.clone();
                    want.insert_str(b, &c);
                    if r.text() != want {
                        violation!("local", "replica {} typed {:?} into {:?} and has {:?}", a, c, t, r.text());
                    }
                    r.check(a, "after typing");
                    at += 1;
                }
                note("edits", 1);
                note("nontrivial", 1);
                slog!("replica {} types {}: {}", a, run, r.text());
                texts.push(r.text());
                runs.push((run, a));
            }
            "sync" => {
                let to = op["to"].as_u64().unwrap() as usize % n;
                if to != a {
                    post(&mut reps, &mut net, a, to);
                    let m = net.pop().unwrap();
                    receive(&mut reps, &m);
                }
            }
            "send" => {
                let to = op["to"].as_u64().unwrap() as usize % n;
                if to != a {
                    post(&mut reps, &mut net, a, to);
                }
            }
            "part" => {
                let a = op["a"].as_u64().unwrap() as usize % n;
                if op["on"] == true {
                    cut.insert(a);
                } else {
                    cut.remove(&a);
                }
            }
            "crash" => {
                // what was not stored is lost; it has not been sent either
                if op["keep"] == true {
                    let s = reps[a].state();
                    let k = reps[a].know.clone();
                    reps[a].disk = Some((s, k));
                }
                note("crashes", 1);
                sessions += 1;
                let mut r = Rep::fresh(sessions);
                if let Some((s, k)) = reps[a].disk.clone() {
                    let e: Engine = serde_json::from_slice(&s).unwrap();
                    r.e.merge(&e);
                    r.know = k.clone();
                    r.disk = Some((s, k));
                    r.hist = vec![(r.e.get_head_rev_id().token(), r.text())];
                }
                lose_dead.extend(reps[a].know.ins.difference(&r.know.ins));
                r.check(a, "after a restart");
                slog!("replica {} restarts as session {} with {}", a, r.session, r.text());
                reps[a] = r;
            }
            _ => (),
        }
        // the network delivers some of what is under way, in any order
        let quiet = op["k"] == "edit" || op["k"] == "type";
        for _ in 0..3 {
            if net.is_empty() || decide(K::NetDelay, 2, if quiet { 600_000 } else { 300_000 }) == 1 {
                break;
            }
            let i = decide(K::NetReorder, net.len() as u32, 500_000) as usize;
            if cut.contains(&net[i].to) || cut.contains(&net[i].from) {
                net.remove(i);
                note("partitioned", 1);
                continue;
            }
            if sc["lossy"] == true && decide(K::NetDrop, 2, 150_000) == 1 {
                net.remove(i);
                note("dropped", 1);
                continue;
            }
            if sc["lossy"] == true && decide(K::NetDup, 2, 150_000) == 1 {
                note("duplicated", 1);
                receive(&mut reps, &net[i]);
            } else {
                let m = net.remove(i);
                receive(&mut reps, &m);
            }
        }
    }
    // the network is whole again: everything still under way arrives, then they exchange states
    while !net.is_empty() {
        let i = decide(K::NetReorder, net.len() as u32, 300_000) as usize;
        let m = net.remove(i);
        receive(&mut reps, &m);
    }
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    if sc["ring"] == true {
        for _ in 0..2 {
            pairs.extend((0..n).map(|i| (i, (i + 1) % n)));
        }
    } else {
        pairs.extend((0..n).flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| (i, j))));
    }
    for (i, j) in pairs {
        post(&mut reps, &mut net, i, j);
        let m = net.pop().unwrap();
        receive(&mut reps, &m);
    }
    let end = reps[0].text();
    for i in 1..n {
        if reps[i].know.ins != reps[0].know.ins || reps[i].know.del != reps[0].know.del {
            violation!("harness", "the replicas have not heard of the same edits");
        }
        if reps[i].text() != end {
            violation!("diverged", "replica 0 has {:?} and replica {} has {:?} after both have merged everything", end, i, reps[i].text());
        }
    }
    for t in &texts {
        if !order_kept(t, &end) {
            violation!("reordered", "a replica had {:?} and the end is {:?}", t, end);
        }
    }
    // a typed run is only interrupted by text whose author had seen part of it
    let pos: BTreeMap<char, usize> = end.chars().enumerate().map(|(i, c)| (c, i)).collect();
    let ec = chars(&end);
    for (run, a) in &runs {
        let rc: BTreeSet<char> = run.chars().collect();
        let at: Vec<usize> = run.chars().filter_map(|c| pos.get(&c).copied()).collect();
        if at.len() < 2 || run.chars().any(|c| !pos.contains_key(&c)) {
            continue;
        }
        note("runs", 1);
        for c in &ec[at[0]..*at.last().unwrap()] {
            if !rc.contains(c) && saw[c].is_disjoint(&rc) && !sees(&saw, *c, &rc) {
                violation!("interleaved", "replica {} typed {:?} in one go; {:?}, typed by somebody who had not seen it, is inside it: {:?}", a, run, c, end);
            }
        }
    }
}
fn sees(saw: &BTreeMap<char, BTreeSet<char>>, c: char, rc: &BTreeSet<char>) -> bool {
    // or anchored by text which had
    saw[&c].iter().any(|d| !saw[d].is_disjoint(rc))
}
pub const C22: Prop = Prop {
    id: "C22",
    gen: gen_c22,
    run: run_c22,
    rule: "a run counts when a replica made at least one edit",
    real: &["xi-rope: Engine (edit_rev, merge, serialization), multiset, delta, rope"],
    stub: &["network between the replicas", "storage of the replicas", "the editors above the engines: edits are chosen by the scenario"],
    assumptions: &["a state is sent only after it has been stored", "a restarted replica has a new session id", "undone edits are not merged (the engine does not support it)"],
};

// ------------------------------------------------------------ history engine, forgetting and not (C10)

pub fn gen_forget(r: &mut Rng, th: bool) -> Value {
    let n = r.range(3, if th { 120 } else { 60 });
    let ops: Vec<Value> = (0..n)
        .map(|_| match r.below(10) {
            0 => json!({"k": "undo"}),
            1 => json!({"k": "redo"}),
            2 | 3 => json!({"k": "gc"}),
            _ => json!({"k": "edit", "back": if r.below(2) == 0 { 0 } else { r.below(8) }, "els": gen_els(r), "g": *r.pick(&["new", "new", "same", "old", "live", "same"]), "gi": r.below(1000), "prio": r.below(3)}),
        })
        .collect();
    json!({"kind": "forget", "max": r.range(2, 5), "ops": ops, "len": r.below(10)})
}
pub fn run_forget(sc: &Value) {
    let (mut e, mut twin) = (Engine::new(Rope::from("")), Engine::new(Rope::from("")));
    let mut cnt = 0;
    let mx = sc["max"].as_u64().unwrap() as usize;
    let text = fresh(&mut cnt, sc["len"].as_u64().unwrap());
    let d = xi_rope::Delta::simple_edit(Interval::new(0, 0), Rope::from(text.as_str()), 0);
    let t = e.get_head_rev_id().token();
    e.edit_rev(1, 0, t, d.clone());
    twin.edit_rev(1, 0, t, d);
    // the bookkeeping of Editor
    let (mut undone, mut dead, mut gc): (BTreeSet<usize>, BTreeSet<usize>, BTreeSet<usize>) = Default::default();
    let (mut live, mut cur, mut next) = (vec![0usize], 1usize, 1usize);
    let mut revs = vec![(e.get_head_rev_id().token(), text)];
    for (i, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        slog!("op {}", op);
        match op["k"].as_str().unwrap() {
            "undo" | "redo" => {
                if op["k"] == "undo" && cur > 1 {
                    cur -= 1;
                    undone.insert(live[cur]);
                } else if op["k"] == "redo" && cur < live.len() {
                    undone.remove(&live[cur]);
                    cur += 1;
                } else {
                    continue;
                }
                e.undo(undone.clone());
                twin.undo(&undone | &dead);
                revs.push((e.get_head_rev_id().token(), String::from(twin.get_head())));
            }
            "gc" => {
                if gc.is_empty() {
                    continue;
                }
                let kept = e.gc_retain(&gc);
                let gone = &gc - &kept;
                dead.extend(gone.intersection(&undone));
                undone = &undone - &gone;
                gc = kept;
                note("gcs", 1);
                revs = vec![revs.pop().unwrap()];
            }
            _ => {
                let (base, text) = revs[revs.len() - 1 - (op["back"].as_u64().unwrap() as usize).min(revs.len() - 1)].clone();
                match e.get_rev(base) {
                    Some(t) if String::from(&t) == text => (),
                    t => violation!("revision", "op {}: the text of a revision no plugin has gone past was {:?} and is {:?}", i, text, t.map(|t| String::from(&t))),
                }
                let gi = op["gi"].as_u64().unwrap() as usize;
                let g = match op["g"].as_str().unwrap() {
                    "new" => {
                        gc.extend(&live[cur..]);
                        live.truncate(cur);
                        live.push(next);
                        if live.len() <= mx {
                            cur += 1;
                        } else {
                            gc.insert(live.remove(0));
                        }
                        next += 1;
                        next - 1
                    }
                    "same" => *live.last().unwrap(),
                    "live" => live[gi % live.len()],
                    _ => gi % next,
                };
                if dead.contains(&g) {
                    continue; // undone and forgotten
                }
                let (d, _, _) = build(&text, &op["els"], &mut cnt);
                let p = op["prio"].as_u64().unwrap() as usize;
                e.edit_rev(p, g, base, d.clone());
                twin.edit_rev(p, g, base, d);
                note("nontrivial", 1);
                revs.push((e.get_head_rev_id().token(), String::from(twin.get_head())));
            }
        }
        let (a, b) = (String::from(e.get_head()), String::from(twin.get_head()));
        slog!("{}", a);
        if a != b {
            violation!("forgotten", "op {} {}: an engine which has forgotten old undo groups has {:?}, and one which has not has {:?}", i, op["k"], a, b);
        }
        sig(a.len() as u64);
    }
}
