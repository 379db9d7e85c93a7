//! Files: crashes during a save (C14), failing saves (C15), round trips (C16), external changes (C17).
use crate::driver::Prop;
use crate::fe::*;
use crate::model::Cfg;
use crate::props::edit::*;
use crate::rt::*;
use crate::vos;
use crate::{slog, violation};
use serde_json::{json, Value};

const FASSUME: &[&str] = &[
    "the simulated file system is ordered (a metadata journal that persists in order up to some point), data not covered by fsync may be old, truncated, empty or zeroed after power loss",
    "file modification times have nanosecond resolution and two changes never share one",
    "the wake-up that the debouncing thread of the third-party notify crate can miss, and it loses events when its threads stall for longer than its delay: its threads are not stalled, and the wake-up is made up for by changes of another file in the directory",
    "paths are absolute and canonical; no symbolic or hard links; a single core process",
];

/// The text that a save of `text` puts on disk (before a byte order mark).
fn on_disk(text: &str, c: &Cfg) -> String {
    let mut s = text.to_string();
    if !s.is_empty() && c.save_newline && !s.ends_with(&c.eol) {
        s.push_str(&c.eol);
    }
    s
}
/// The configuration of a view as its front-end knows it.
fn cfg_of(fe: &Fe, v: &str) -> Cfg {
    let mut c = Cfg::default();
    c.apply(&fe.mirror(v).config);
    c
}
fn bytes(t: &str) -> String {
    short(t)
}
fn shortb(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "nothing".into(),
        Some(b) => format!("{} bytes {}", b.len(), short(&String::from_utf8_lossy(b))),
    }
}
fn file_text(r: &mut Rng) -> String {
    match r.below(10) {
        8 | 9 => gen_repeats(r),
        0 => String::new(),
        1 => gen_line(r),
        2 => (0..r.range(200, 3000)).map(|i| format!("line {} {}\n", i, if i % 7 == 0 { "日本" } else { "x" })).collect(),
        _ => gen_text(r, 30),
    }
}
/// Long lines that repeat and nearly repeat: what the diff of a reload has to match up.
fn gen_repeats(r: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "the quick brown fox jumps over the lazy dog\n",
        "the quick brown fox jumps over the lazy cat\n",
        "    the quick brown fox jumps over the lazy dog\n",
        "ein Zeichen länger als alle anderen Zeilen: ä\n",
        "ein Zeichen länger als alle anderen Zeilen: ö\n",
        "日本語の長い行がここにあります。日本語の長い行\n",
        "日本語の長い行がここにあります。日本語の長い街\n",
        "short\n",
        "}\n",
        "\n",
    ];
    let n = r.below(40);
    let mut s = String::new();
    for _ in 0..n {
        let l = *r.pick(POOL);
        match r.below(12) {
            0 => s.push_str(&l.replace('o', "ó")),
            1 => s.push_str(l.trim_end()),
            2 => {
                s.push_str("👍");
                s.push_str(l)
            }
            _ => s.push_str(l),
        }
    }
    s
}
/// An edit as these checks use it: insert a token at the beginning, paste, or delete.
fn gen_fedit(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => json!({"k": "ed", "m": "insert", "p": {"chars": gen_insert(r)}}),
        1 => json!({"k": "ed", "m": "delete_backward", "p": []}),
        2 => json!({"k": "ed", "m": "paste", "p": {"chars": gen_text(r, 30)}}),
        3 => json!({"k": "ed", "m": *r.pick(&["select_all", "move_to_end_of_document", "move_to_beginning_of_document", "move_word_right"]), "p": []}),
        _ => json!({"k": "ed", "m": *r.pick(&["undo", "redo", "insert_newline", "delete_word_backward"]), "p": []}),
    }
}

// ---------------------------------------------------------------------------------------- C14
fn gen_c14(r: &mut Rng, thorough: bool) -> Value {
    let nf = r.range(1, 2);
    let files: Vec<Value> = (0..nf)
        .map(|_| if r.below(5) == 0 { Value::Null } else { json!({"text": file_text(r), "bom": r.below(5) == 0, "mode": *r.pick(&[0o644u32, 0o600, 0o755, 0o444, 0o640, 0o664])}) })
        .collect();
    let n = r.range(3, if thorough { 40 } else { 14 });
    let mut ops: Vec<Value> = Vec::new();
    for _ in 0..n {
        let v = r.below(nf);
        let mut o = match r.below(10) {
            0..=4 => gen_fedit(r),
            5..=8 => {
                let mut o = json!({"k": "save", "wait": r.below(3) > 0});
                if r.below(6) == 0 {
                    o["to"] = json!(r.below(3));
                }
                o
            }
            _ => json!({"k": "pause", "ms": r.below(30)}),
        };
        o["v"] = json!(v);
        ops.push(o);
    }
    if r.below(3) == 0 {
        ops.push(json!({"k": "kill", "v": 0}));
    }
    let mut so = json!({"fault": {"crash": *r.pick(&[0u32, 5_000, 20_000, 60_000]), "fs_err": 0}});
    if r.below(4) == 0 {
        so["fault"]["fs_err"] = json!(*r.pick(&[5_000u32, 40_000]));
    }
    json!({"files": files, "ops": ops, "power": r.below(3) > 0, "names": gen_names(r, 3), "sched_override": so})
}
struct Hist {
    path: String,
    /// contents that a save was asked to put there, oldest first; [0] is what was there before
    want: Vec<Option<Vec<u8>>>,
    /// index of the newest save known to have been reported as done
    done: usize,
    mode: Option<u32>,
}
fn dead() -> bool {
    vos::vos().crashed.is_some()
}
/// A request that may find the core dead.
fn ask(fe: &Fe, m: &str, p: Value) -> Option<Result<Value, Value>> {
    let id = fe.send(m, p);
    eventually_in(30 * SEC, MS, || fe.reply(id).is_some() || dead());
    if !dead() {
        fe.check_alive();
        if fe.reply(id).is_none() {
            violation!("no-answer", "request {} {} is never answered", id, m);
        }
    }
    fe.reply(id)
}
fn mkfile(path: &str, f: &Value) {
    let mut b: Vec<u8> = Vec::new();
    if f["bom"] == true {
        b.extend_from_slice("\u{feff}".as_bytes());
    }
    b.extend_from_slice(f["text"].as_str().unwrap().as_bytes());
    vos::h_write(path, &b);
    vos::h_chmod(path, f["mode"].as_u64().unwrap() as u32);
}
fn bom_bytes(bom: bool, t: String) -> Vec<u8> {
    let mut b = if bom { "\u{feff}".as_bytes().to_vec() } else { vec![] };
    b.extend_from_slice(t.as_bytes());
    b
}
fn run_c14(sc: &Value) {
    vos::h_mkdirs("/w");
    let others = neighbours(&sc["names"]);
    for (p, b) in &others {
        vos::h_write(p, b);
    }
    let path_of = |i: usize| format!("/w/{}", sc["names"][i].as_str().unwrap());
    let mut hs: Vec<Hist> = Vec::new();
    for (i, f) in sc["files"].as_array().unwrap().iter().enumerate() {
        let path = path_of(i);
        if !f.is_null() {
            mkfile(&path, f);
        }
        hs.push(Hist { want: vec![vos::h_read(&path)], done: 0, mode: f["mode"].as_u64().map(|m| m as u32), path });
    }
    for i in hs.len()..3 {
        hs.push(Hist { path: path_of(i), want: vec![None], done: 0, mode: None });
    }
    vos::h_sync();
    vos::vos().fault_prefix = "/w".into();
    let fe = Fe::start(Start::default());
    let mut vs: Vec<(String, usize, bool)> = Vec::new(); // view, the file it belongs to, bom
    for (i, f) in sc["files"].as_array().unwrap().iter().enumerate() {
        vs.push((fe.new_view(Some(&hs[i].path)), i, f["bom"] == true));
    }
    fe.settle();
    vos::vos().crash_proc = Some(CORE);
    vos::vos().fault_proc = CORE;
    let mut pending: Vec<(usize, usize)> = Vec::new();
    for op in sc["ops"].as_array().unwrap() {
        let i = op["v"].as_u64().unwrap() as usize % vs.len();
        let v = vs[i].0.clone();
        if dead() {
            break;
        }
        match op["k"].as_str().unwrap() {
            "ed" => {
                fe.edit(&v, op["m"].as_str().unwrap(), op["p"].clone());
            }
            "pause" => sleep(op["ms"].as_u64().unwrap() * MS),
            "kill" => {
                let _g = Rt::enter();
                vos::crash_now("kill");
            }
            "save" => {
                let to = op["to"].as_u64().map(|x| x as usize).unwrap_or(vs[i].1);
                if to != vs[i].1 && vs.iter().enumerate().any(|(j, x)| j != i && x.1 == to) {
                    continue; // two views of one file are left to C17
                }
                let text = match ask(&fe, "debug_get_contents", json!({ "view_id": v })) {
                    Some(Ok(Value::String(t))) => t,
                    _ => break,
                };
                let alerts = fe.alerts().len();
                let bom = vs[i].2;
                let b = bom_bytes(bom, on_disk(&text, &cfg_of(&fe, &v)));
                hs[to].want.push(Some(b));
                slog!("save {} to {}: {}", v, hs[to].path, short(&text));
                fe.notify("save", json!({"view_id": v, "file_path": hs[to].path}));
                pending.push((to, hs[to].want.len() - 1));
                if to != vs[i].1 {
                    // the view may or may not belong to the new file from now on: find out
                    if ask(&fe, "debug_get_contents", json!({ "view_id": v })).is_none() {
                        break;
                    }
                    if fe.alerts().len() == alerts {
                        vs[i].1 = to;
                    }
                } else if op["wait"] == true && ask(&fe, "debug_get_contents", json!({ "view_id": v })).is_none() {
                    break;
                }
                if op["wait"] == true || to != vs[i].1 {
                    // everything before has been handled and reported
                    if fe.alerts().is_empty() {
                        for (f, k) in pending.drain(..) {
                            hs[f].done = k;
                        }
                    }
                    note("saves", 1);
                }
                note("nontrivial", 1);
            }
            _ => unreachable!(),
        }
    }
    if !dead() {
        fe.settle();
        let quiet = fe.alerts().is_empty();
        if quiet {
            for (f, k) in pending.drain(..) {
                hs[f].done = k;
            }
        }
    }
    let faulty = !vos::vos().fs_fault_log.is_empty();
    let crashed = vos::vos().crashed.clone();
    vos::vos().crash_proc = None;
    vos::vos().fault_proc = u32::MAX;
    if crashed.is_some() {
        note("crashes", 1);
    }
    let how = if sc["power"] == true { "power loss" } else { "kill" };
    if sc["power"] == true && (crashed.is_some() || fe.alerts().is_empty()) {
        if crashed.is_none() {
            let _g = Rt::enter();
            vos::vos().crash_proc = Some(CORE);
            vos::crash_now("idle");
            vos::vos().crash_proc = None;
        }
        vos::h_power_loss(false);
        note("power losses", 1);
    }
    for h in &hs {
        let got = vos::h_read(&h.path);
        // a failing fsync of the directory, reported to nobody, is the disk's fault
        let from = if faulty { 0 } else { h.done };
        let ok = h.want[from..].iter().any(|w| *w == got);
        if !ok {
            let torn = !h.want.iter().any(|w| *w == got);
            violation!(
                if torn { "torn" } else { "lost-save" },
                "after {} {:?} {} contains {}, which is neither the contents before ({}) nor those of the save under way ({}){}",
                how,
                crashed.as_ref().map(|c| &c.1),
                h.path,
                shortb(&got),
                shortb(&h.want[h.done]),
                shortb(h.want.last().unwrap()),
                if torn { "" } else { ": a save that had been reported as done is lost" }
            );
        }
        if let (Some(m), Some(_)) = (h.mode, &got) {
            let chm = vos::vos().fs_fault_log.iter().any(|x| x.1 == "fchmod" || x.1 == "chmod" || x.1 == "stat");
            if vos::h_mode(&h.path) != Some(m) && !chm {
                violation!("mode", "after {} {:?} the permissions of {} are {:o} and were {:o}", how, crashed.as_ref().map(|c| &c.1), h.path, vos::h_mode(&h.path).unwrap(), m);
            }
        }
        sig(crate::driver::hash(got.as_deref().unwrap_or(b"none")));
    }
    check_neighbours(&format!("after {} {:?}", how, crashed.as_ref().map(|c| &c.1)), &others);
    // the editor starts again and shows what is there
    if crashed.is_some() {
        vos::vos().crashed = None;
        sim().faults_on = false;
        let fe = Fe::start(Start::default());
        for h in &hs {
            if let Some(b) = vos::h_read(&h.path) {
                let v = fe.new_view(Some(&h.path));
                let t = String::from_utf8(b).unwrap();
                let t = t.strip_prefix('\u{feff}').unwrap_or(&t).to_string();
                if fe.contents(&v).as_deref() != Some(&t) {
                    violation!("reopen", "{} is shown as {:?} after the restart and contains {}", h.path, fe.contents(&v), bytes(&t));
                }
            }
        }
    }
}
pub const C14: Prop = Prop {
    id: "C14",
    gen: gen_c14,
    run: run_c14,
    rule: "a run counts when at least one save was started",
    real: REAL,
    stub: STUB,
    assumptions: FASSUME,
};

/// Names that have something in common; none is what another one is saved through (`NAME.swp`).
const NAMES: &[&str] = &["f0.txt", "f1.txt", "f2.txt", "f0.rs", "f0.swp", "f1.swp", "f0.bak", "f0.txt~", "f1.txt.tmp", "f", ".f0.txt", "g.tar.gz", "g.tar.swp", "é.txt", "a b", ".hidden", "f2.txt.swp.swp"];
fn gen_names(r: &mut Rng, n: usize) -> Vec<&'static str> {
    if r.below(3) == 0 {
        return NAMES[..n].to_vec();
    }
    let mut v: Vec<&str> = Vec::new();
    while v.len() < n {
        let x = *r.pick(NAMES);
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
/// Files that nobody saves, beside those that are.
fn neighbours(names: &Value) -> Vec<(String, Vec<u8>)> {
    let used: Vec<&str> = names.as_array().unwrap().iter().map(|n| n.as_str().unwrap()).collect();
    NAMES.iter().filter(|n| !used.contains(n)).map(|n| (format!("/w/{}", n), format!("this is {}\n", n).into_bytes())).collect()
}
fn check_neighbours(after: &str, ns: &[(String, Vec<u8>)]) {
    for (p, b) in ns {
        let got = vos::h_read(p);
        if got.as_ref() != Some(b) {
            violation!("other-file", "{} {}, which is none of the files that were saved, contains {}", after, p, shortb(&got));
        }
    }
}

// ---------------------------------------------------------------------------------------- C15
fn gen_c15(r: &mut Rng, thorough: bool) -> Value {
    let nf = r.range(1, 2);
    let files: Vec<Value> = (0..nf)
        .map(|_| if r.below(5) == 0 { Value::Null } else { json!({"text": file_text(r), "bom": r.below(5) == 0, "mode": *r.pick(&[0o644u32, 0o600, 0o755])}) })
        .collect();
    let n = r.range(3, if thorough { 60 } else { 20 });
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let mut o = match r.below(12) {
                0..=4 => gen_fedit(r),
                5..=8 => json!({"k": "save"}),
                9 => json!({"k": "ext", "text": gen_text(r, 30), "how": *r.pick(&["write", "replace", "touch", "remove"])}),
                10 => json!({"k": "full", "on": r.below(2) == 0}),
                _ => match r.below(3) {
                    0 => json!({"k": "open"}),
                    1 => json!({"k": "pause", "ms": r.below(300)}),
                    _ => json!({"k": "chmod", "mode": *r.pick(&[0o644u32, 0o600, 0o700])}),
                },
            };
            o["v"] = json!(r.below(nf));
            o
        })
        .collect();
    json!({"files": files, "ops": ops, "names": gen_names(r, 2), "sched_override": {"fault": {"fs_err": *r.pick(&[0u32, 10_000, 60_000, 200_000, 500_000])}}})
}
struct FView {
    v: String,
    path: String,
    bom: bool,
    /// contents of the file as last loaded from or saved to it by this view, and its mtime
    known: Option<u64>,
    open: bool,
    /// changed by another program since
    ext: bool,
    /// changed by another program at any time: may have been reloaded, with or without a mark
    ever: bool,
}
fn run_c15(sc: &Value) {
    vos::h_mkdirs("/w");
    let others = neighbours(&sc["names"]);
    for (p, b) in &others {
        vos::h_write(p, b);
    }
    vos::vos().fault_prefix = "/w".into();
    let files = sc["files"].as_array().unwrap();
    let fe = Fe::start(Start::default());
    let mut vs: Vec<FView> = Vec::new();
    for (i, f) in files.iter().enumerate() {
        let path = format!("/w/{}", sc["names"][i].as_str().unwrap());
        if !f.is_null() {
            mkfile(&path, f);
        }
        let v = fe.new_view(Some(&path));
        vs.push(FView { v, known: vos::h_mtime(&path), open: !f.is_null(), ext: false, ever: false, path, bom: f["bom"] == true });
    }
    fe.settle();
    vos::vos().fault_proc = CORE;
    for (n, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let i = op["v"].as_u64().unwrap() as usize % vs.len();
        let v = vs[i].v.clone();
        let path = vs[i].path.clone();
        match op["k"].as_str().unwrap() {
            "ed" => fe.edit(&v, op["m"].as_str().unwrap(), op["p"].clone()),
            "pause" => sleep(op["ms"].as_u64().unwrap() * MS),
            "full" => vos::vos().disk_full = op["on"] == true,
            "chmod" => {
                if vos::h_read(&path).is_some() {
                    vos::h_chmod(&path, op["mode"].as_u64().unwrap() as u32)
                }
            }
            "ext" => {
                vs[i].ext = true;
                vs[i].ever = true;
                let t = op["text"].as_str().unwrap().as_bytes();
                match op["how"].as_str().unwrap() {
                    "write" => vos::h_write(&path, t),
                    "replace" => vos::h_replace(&path, t),
                    "remove" => vos::h_remove(&path),
                    _ => {
                        if let Some(b) = vos::h_read(&path) {
                            vos::h_write(&path, &b)
                        }
                    }
                }
            }
            // a file that cannot be read is not shown as an empty one
            "open" => {
                let before = vos::h_read(&path);
                let nf = vos::vos().fs_fault_log.len();
                match fe.request("new_view", json!({ "file_path": path })) {
                    Ok(Value::String(nv)) => {
                        let t = fe.contents(&nv).unwrap();
                        let d = before.clone().unwrap_or_default();
                        let d = String::from_utf8(d).unwrap();
                        if t != d.strip_prefix('\u{feff}').unwrap_or(&d) && vos::h_read(&path) == before {
                            violation!("opened-wrong", "op {}: {} contains {} and is opened as {}", n, path, shortb(&before), short(&t));
                        }
                        fe.notify("close_view", json!({ "view_id": nv }));
                        note("opened", 1);
                    }
                    Ok(o) => violation!("new-view", "new_view answered {}", o),
                    Err(_) => {
                        if vos::vos().fs_fault_log.len() == nf {
                            violation!("open-failed", "op {}: {} cannot be opened although nothing failed", n, path);
                        }
                        note("open refused", 1);
                    }
                }
            }
            "save" => {
                save_once(&fe, &mut vs, i, n, false);
            }
            _ => unreachable!(),
        }
    }
    // faults stop: everything can be saved
    vos::vos().fault_proc = u32::MAX;
    vos::vos().disk_full = false;
    sim().faults_on = false;
    fe.settle();
    for i in 0..vs.len() {
        if !save_once(&fe, &mut vs, i, 9999, true) {
            // refused because the file changed on disk: saving elsewhere works
            vs[i].path = format!("/w/else{}.txt", i);
            vs[i].open = false;
            vs[i].ext = false;
            if !save_once(&fe, &mut vs, i, 9999, true) {
                violation!("save-fails", "{} cannot be saved after the faults have stopped: {:?}", vs[i].v, fe.alerts().last());
            }
        }
    }
    check_neighbours("at the end", &others);
}
/// Saves and checks the outcome. Returns whether the save succeeded.
fn save_once(fe: &Fe, vs: &mut [FView], i: usize, n: usize, last: bool) -> bool {
    let (v, path) = (vs[i].v.clone(), vs[i].path.clone());
    // let pending reloads happen first, or keep the race: both are of interest
    let text = fe.contents(&v).unwrap();
    let before = vos::h_read(&path);
    let mode = vos::h_mode(&path);
    let mt = vos::h_mtime(&path);
    let ino = vos::h_ino(&path);
    let al = fe.alerts().len();
    let nf = vos::vos().fs_fault_log.len();
    let full = vos::vos().disk_full;
    let pristine = fe.mirror(&v).pristine;
    fe.notify("save", json!({"view_id": v, "file_path": path}));
    let text2 = fe.contents(&v).unwrap();
    let alerts = fe.alerts();
    let failed = alerts.len() > al;
    let flog: Vec<(String, String)> = vos::vos().fs_fault_log[nf..].iter().filter(|x| x.3 > 0).map(|x| (x.1.clone(), x.2.clone())).collect();
    let after = vos::h_read(&path);
    // a reload in between makes the text that of the file
    let reloaded = text2 != text;
    if reloaded && !(mt != vs[i].known || mt.is_none()) {
        violation!("text-changed", "op {}: saving {} changed its text from {} to {}", n, v, short(&text), short(&text2));
    }
    note("nontrivial", 1);
    let changed = vs[i].open && (vs[i].ext || mt.is_some() && mt != vs[i].known);
    if failed {
        note("save failed", 1);
        if after != before {
            violation!("failed-save-wrote", "op {}: the save of {} failed ({:?}) and yet {} changed from {} to {}", n, v, alerts.last(), path, shortb(&before), shortb(&after));
        }
        if vos::h_mode(&path) != mode {
            violation!("failed-save-mode", "op {}: the save of {} failed and yet the permissions of {} changed", n, v, path);
        }
        if flog.is_empty() && !full && !vos::vos().disk_full && !changed && vos::vos().fs_fault_log.is_empty() {
            violation!("save-refused", "op {}: the save of {} to {} failed although nothing was wrong: {:?}", n, v, path, alerts.last());
        }
        if last && !changed {
            violation!("save-refused", "op {}: the save of {} to {} fails after the faults have stopped: {:?}", n, v, path, alerts.last());
        }
        let was = sim().faults_on;
        sim().faults_on = false;
        sleep(20 * MS);
        let _ = fe.contents(&v);
        sim().faults_on = was;
        if !reloaded && !pristine && fe.mirror(&v).pristine && vos::h_mtime(&path) == mt && fe.contents(&v).unwrap() == text2 && !changed {
            violation!("failed-save-pristine", "op {}: the save of {} failed and yet it is shown as saved", n, v);
        }
        return false;
    }
    let c = &cfg_of(fe, &v);
    let want = bom_bytes(vs[i].bom, on_disk(&text2, c));
    let want_e = bom_bytes(vs[i].bom, on_disk(&text, c));
    // after a reload the byte order mark is that of the new file
    let alt = bom_bytes(!vs[i].bom, on_disk(&text2, c));
    if after != Some(want.clone()) && !(vs[i].ever && after == Some(alt.clone())) && !(changed && after == Some(want_e)) {
        violation!("saved-wrong", "op {}: {} was saved without an error and {} contains {} instead of {}", n, v, path, shortb(&after), shortb(&Some(want)));
    }
    if vs[i].open && mt.is_some() && mt != vs[i].known && !flog.iter().any(|x| x.0 == "stat") {
        // allowed only when the view had been reloaded from exactly these contents before
        let seen = vos::vos().fs_reads.iter().any(|x| Some(x.0) == ino && Some(x.1) == mt);
        if !seen {
            violation!("overwrote", "op {}: {} had been changed on disk to {} and was overwritten with {}", n, path, shortb(&before), short(&text2));
        }
    }
    if after == Some(alt) && after != Some(bom_bytes(vs[i].bom, on_disk(&text2, c))) {
        vs[i].bom = !vs[i].bom;
    }
    let vital = flog.iter().find(|x| matches!(x.0.as_str(), "write" | "fsync" | "rename") || (x.0 == "open" && x.1.ends_with(".swp") && !vs.iter().any(|w| w.path == x.1)));
    if let Some(x) = vital {
        violation!("silent-failure", "op {}: {} failed while saving {} and no error was shown", n, x.0, v);
    }
    if let (Some(m), Some(g)) = (mode, vos::h_mode(&path)) {
        if m != g && !flog.iter().any(|x| x.0 == "fchmod" || x.0 == "stat") {
            violation!("mode", "op {}: the permissions of {} were {:o} before the save and are {:o} after it", n, path, m, g);
        }
    }
    vs[i].known = vos::h_mtime(&path);
    vs[i].open = true;
    vs[i].ext = false;
    note("save done", 1);
    true
}
pub const C15: Prop = Prop {
    id: "C15",
    gen: gen_c15,
    run: run_c15,
    rule: "a run counts when at least one save was attempted",
    real: REAL,
    stub: STUB,
    assumptions: FASSUME,
};

// ---------------------------------------------------------------------------------------- C16
fn gen_raw(r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    if r.below(4) == 0 {
        b.extend_from_slice("\u{feff}".as_bytes());
        if r.below(6) == 0 {
            b.extend_from_slice("\u{feff}".as_bytes());
        }
    }
    match r.below(12) {
        0 => {}
        1 => b.extend_from_slice(gen_line(r).as_bytes()),
        2 => {
            // not text
            b.extend_from_slice(gen_text(r, 5).as_bytes());
            let at = r.below(b.len() as u64 + 1) as usize;
            let bad: &[u8] = *r.pick(&[&[0xff_u8, 0xfe][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe6, 0x97], &[0x80], &[0xf5, 0x80, 0x80, 0x80]]);
            for (i, x) in bad.iter().enumerate() {
                b.insert((at + i).min(b.len()), *x);
            }
        }
        3 => b.extend_from_slice(gen_text(r, 10).replace('\n', "\r\n").replace("\r\r", "\r").as_bytes()),
        4 => b.extend_from_slice(gen_text(r, 10).replace(' ', "\0").as_bytes()),
        5 => b.extend_from_slice(gen_text(r, 10).replace(' ', "\r").as_bytes()),
        6 => {
            for i in 0..r.range(500, 9000) {
                b.extend_from_slice(format!("{} {}\n", i, if i % 5 == 0 { "日本語é" } else { "x" }).as_bytes());
            }
        }
        7 => {
            // one long line, with characters on every possible chunk boundary
            let pad = r.below(8) as usize;
            b.extend(std::iter::repeat(b'a').take(pad));
            for _ in 0..r.range(100, 4000) {
                b.extend_from_slice("日é👍x".as_bytes());
            }
        }
        _ => b.extend_from_slice(gen_text(r, 30).as_bytes()),
    }
    b
}
fn gen_c16(r: &mut Rng, thorough: bool) -> Value {
    let nf = r.range(1, 3);
    let files: Vec<Value> = (0..nf).map(|_| if r.below(8) == 0 { Value::Null } else { json!({"raw": gen_raw(r), "mode": *r.pick(&[0o644u32, 0o600, 0o755, 0o444, 0o640, 0o777, 0o664])}) }).collect();
    let n = r.range(2, if thorough { 50 } else { 16 });
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let mut o = match r.below(12) {
                0..=4 => gen_fedit(r),
                5..=7 => json!({"k": "save"}),
                8 => json!({"k": "save", "to": r.below(nf + 2)}),
                9 => json!({"k": "reopen"}),
                10 => json!({"k": "chmod", "mode": *r.pick(&[0o644u32, 0o600, 0o700])}),
                _ => json!({"k": "conf", "c": *r.pick(&["\n", "\r\n"]), "nl": r.below(2) == 0}),
            };
            o["v"] = json!(r.below(nf));
            o
        })
        .collect();
    json!({"files": files, "ops": ops})
}
fn decode(b: &[u8]) -> Option<(bool, String)> {
    let t = std::str::from_utf8(b).ok()?;
    Some(match t.strip_prefix('\u{feff}') {
        Some(x) => (true, x.to_string()),
        None => (false, t.to_string()),
    })
}
struct RView {
    v: Option<String>,
    path: String,
    bom: bool,
}
fn c16_open(fe: &Fe, path: &str, what: &str) -> RView {
    let raw = vos::h_read(path);
    let mode = vos::h_mode(path);
    let want = match &raw {
        None => Some((false, String::new())),
        Some(b) => decode(b),
    };
    let r = fe.request("new_view", json!({ "file_path": path }));
    if vos::h_read(path) != raw || vos::h_mode(path) != mode {
        violation!("open-wrote", "{}: opening {} changed it from {} to {}", what, path, shortb(&raw), shortb(&vos::h_read(path)));
    }
    match (r, want) {
        (Ok(Value::String(v)), Some((bom, t))) => {
            let got = fe.contents(&v);
            if got.as_deref() != Some(&t[..]) {
                violation!("load", "{}: {} contains {} and is shown as {}", what, path, shortb(&raw), short(&got.unwrap_or_default()));
            }
            RView { v: Some(v), path: path.into(), bom }
        }
        (Err(_), None) => {
            note("not text", 1);
            RView { v: None, path: path.into(), bom: false }
        }
        (Ok(v), None) => violation!("load-garbage", "{}: {} is not text and was opened as {}: {:?}", what, path, v, v.as_str().and_then(|v| fe.contents(v)).map(|t| short(&t))),
        (r, Some(_)) => violation!("load-failed", "{}: {} cannot be opened: {:?}", what, path, r),
    }
}
fn run_c16(sc: &Value) {
    vos::h_mkdirs("/w");
    let fe = Fe::start(Start::default());
    let files = sc["files"].as_array().unwrap();
    let mut vs: Vec<RView> = Vec::new();
    for (i, f) in files.iter().enumerate() {
        let path = format!("/w/{}", ["f0.txt", "f1", "f2.rs"][i]);
        if !f.is_null() {
            let b: Vec<u8> = f["raw"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            vos::h_write(&path, &b);
            vos::h_chmod(&path, f["mode"].as_u64().unwrap() as u32);
        }
        vs.push(c16_open(&fe, &path, "at the start"));
    }
    for (n, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let i = op["v"].as_u64().unwrap() as usize % vs.len();
        let what = format!("op {}", n);
        if op["k"] == "reopen" {
            if let Some(v) = &vs[i].v {
                let path = vs[i].path.clone();
                fe.notify("close_view", json!({ "view_id": v }));
                vs[i] = c16_open(&fe, &path, &what);
            }
            continue;
        }
        let v = match &vs[i].v {
            Some(v) => v.clone(),
            None => continue,
        };
        match op["k"].as_str().unwrap() {
            "ed" => fe.edit(&v, op["m"].as_str().unwrap(), op["p"].clone()),
            "chmod" => {
                if vos::h_read(&vs[i].path).is_some() {
                    vos::h_chmod(&vs[i].path, op["mode"].as_u64().unwrap() as u32)
                }
            }
            "conf" => fe.notify("modify_user_config", json!({"domain": "general", "changes": {"line_ending": op["c"], "save_with_newline": op["nl"]}})),
            "save" => {
                let path = match op["to"].as_u64() {
                    Some(t) if (t as usize) < vs.len() => vs[t as usize].path.clone(),
                    Some(t) => format!("/w/new{}", t),
                    None => vs[i].path.clone(),
                };
                if vs.iter().enumerate().any(|(j, x)| j != i && x.path == path) {
                    continue; // the same file in two views: C17
                }
                let same = path == vs[i].path;
                let mode = vos::h_mode(&path);
                let text = fe.contents(&v).unwrap();
                if text.starts_with('\u{feff}') && !vs[i].bom {
                    continue; // a first character that cannot be told from a byte order mark
                }
                let al = fe.alerts().len();
                fe.notify("save", json!({"view_id": v, "file_path": path}));
                if fe.contents(&v).as_deref() != Some(&text[..]) {
                    violation!("text-changed", "{}: saving {} changed its text", what, v);
                }
                if fe.alerts().len() != al {
                    violation!("save-refused", "{}: {} cannot be saved to {}: {:?}", what, v, path, fe.alerts().last());
                }
                let want = bom_bytes(vs[i].bom, on_disk(&text, &cfg_of(&fe, &v)));
                let got = vos::h_read(&path);
                // saving elsewhere may change the line ending that is used from then on
                if got.as_ref() != Some(&want) && (same || got.as_deref().map(|b| decode(b).map(|x| x.1.trim_end().to_string())) != Some(decode(&want).map(|x| x.1.trim_end().to_string()))) {
                    violation!("saved-wrong", "{}: {} was saved to {} as {} instead of {}", what, v, path, shortb(&got), shortb(&Some(want)));
                }
                if got.as_deref().and_then(decode).map(|x| x.0) != Some(vs[i].bom) && !text.is_empty() {
                    violation!("bom", "{}: the byte order mark of {} was {}", what, path, if vs[i].bom { "lost" } else { "made up" });
                }
                if let Some(m) = mode {
                    if vos::h_mode(&path) != Some(m) {
                        violation!("mode", "{}: the permissions of {} were {:o} and are {:o} after a save", what, path, m, vos::h_mode(&path).unwrap());
                    }
                }
                vs[i].path = path;
                // a second view of it shows what was saved
                let again = c16_open(&fe, &vs[i].path, &what);
                fe.notify("close_view", json!({ "view_id": again.v.unwrap() }));
                note("nontrivial", 1);
                sig(crate::driver::hash(got.as_deref().unwrap()));
            }
            _ => unreachable!(),
        }
    }
    fe.settle();
    note("nontrivial", 1);
}
pub const C16: Prop = Prop {
    id: "C16",
    gen: gen_c16,
    run: run_c16,
    rule: "a run counts when at least one file was opened and compared",
    real: REAL,
    stub: STUB,
    assumptions: FASSUME,
};

// ---------------------------------------------------------------------------------------- C17
fn gen_c17(r: &mut Rng, thorough: bool) -> Value {
    let nf = r.range(1, 2);
    let files: Vec<Value> = (0..nf).map(|_| if r.below(8) == 0 { Value::Null } else { json!({"text": file_text(r), "bom": r.below(6) == 0, "mode": 0o644}) }).collect();
    let more = *r.pick(&[0, 1, 1, 3]);
    let nv = r.range(nf, nf + more);
    let n = r.range(3, if thorough { 60 } else { 18 });
    let moves = r.below(2) == 0;
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let mut o = match r.below(12) {
                0 | 5 if moves && r.below(3) == 0 => json!({"k": *r.pick(&["save-as", "save-as", "bad-save", "bad-save", "bad-save", "close"])}),
                0..=3 => json!({"k": "tok"}),
                4 | 5 => json!({"k": "save"}),
                6..=9 => json!({"k": "ext", "f": r.below(nf), "text": match r.below(5) { 0 => file_text(r), 1 | 2 => gen_repeats(r), _ => gen_text(r, 10) }, "how": *r.pick(&["write", "write", "replace", "replace", "parts", "away", "recreate", "touch", "moved-in", "append"])}),
                10 => json!({"k": "undo-check"}),
                _ => json!({"k": "pause", "ms": *r.pick(&[1u64, 40, 120, 250])}),
            };
            o["v"] = json!(r.below(nv));
            o["open"] = json!(moves && r.below(3) > 0);
            o["sync"] = json!(r.below(5) < 3);
            o
        })
        .collect();
    json!({"files": files, "nv": nv, "ops": ops})
}
struct XView {
    v: String,
    f: usize,
    /// whether the core knows the file (it existed when opened, or has been saved)
    known: bool,
    /// texts that the view's text without unsaved tokens may be: what it was last seen as, and
    /// everything the file has contained since
    bases: Vec<String>,
    tokens: Vec<String>,
    /// modification time when last loaded or saved, as far as can be told from outside
    seen: Vec<Option<u64>>,
}
fn disk(path: &str) -> Option<String> {
    vos::h_read(path).and_then(|b| decode(&b)).map(|x| x.1)
}
fn strip(t: &str, toks: &[String]) -> Result<String, String> {
    let mut s = t.to_string();
    for k in toks {
        match s.matches(k.as_str()).count() {
            1 => s = s.replacen(k.as_str(), "", 1),
            n => return Err(format!("{:?} occurs {} times in {}", k, n, short(&s))),
        }
    }
    Ok(s)
}
fn run_c17(sc: &Value) {
    // the notify crate's debouncing loses events when its own threads stall for 100 ms
    sim().stall_named = true;
    vos::h_mkdirs("/w");
    vos::h_mkdirs("/away");
    let files = sc["files"].as_array().unwrap();
    let path = |f: usize| format!("/w/f{}.txt", f);
    for (i, f) in files.iter().enumerate() {
        if !f.is_null() {
            mkfile(&path(i), f);
        }
    }
    let fe = Fe::start(Start::default());
    let mut vs: Vec<XView> = Vec::new();
    for i in 0..sc["nv"].as_u64().unwrap() as usize {
        let f = i % files.len();
        let v = fe.new_view(Some(&path(f)));
        vs.push(XView { v, f, known: !files[f].is_null(), bases: vec![disk(&path(f)).unwrap_or_default()], tokens: vec![], seen: vec![vos::h_mtime(&path(f))] });
    }
    fe.settle();
    let mut serial = 0;
    let changed = |vs: &mut Vec<XView>, f: usize| {
        let d = disk(&path(f));
        let m = vos::h_mtime(&path(f));
        for x in vs.iter_mut().filter(|x| x.f == f) {
            // a file that is written in place is empty for a moment
            x.bases.push(String::new());
            if let Some(d) = &d {
                x.bases.push(d.clone());
            }
            x.seen.push(m);
        }
    };
    for (n, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let i = op["v"].as_u64().unwrap() as usize % vs.len();
        let v = vs[i].v.clone();
        slog!("op {} {} {}", n, v, short(&op.to_string()));
        match op["k"].as_str().unwrap() {
            "tok" => {
                serial += 1;
                let t = format!("<{}>", serial);
                fe.edit(&v, "move_to_beginning_of_document", json!([]));
                fe.edit(&v, "insert", json!({ "chars": t }));
                // wait for it, so that what follows happens after it
                let _ = fe.contents(&v);
                vs[i].tokens.push(t);
            }
            "pause" => sleep(op["ms"].as_u64().unwrap() * MS),
            "ext" => {
                let f = if op["open"] == true { vs[i].f } else { op["f"].as_u64().unwrap() as usize % files.len() };
                let p = path(f);
                let t = op["text"].as_str().unwrap();
                let old = vos::h_read(&p);
                match op["how"].as_str().unwrap() {
                    "write" => vos::h_write(&p, t.as_bytes()),
                    "replace" => vos::h_replace(&p, t.as_bytes()),
                    "parts" => {
                        let mut h = t.len() / 2;
                        while !t.is_char_boundary(h) {
                            h -= 1;
                        }
                        vos::h_write(&p, t[..h].as_bytes());
                        changed(&mut vs, f);
                        sleep(op["v"].as_u64().unwrap() * 60 * MS + MS);
                        vos::h_write(&p, t.as_bytes());
                    }
                    "away" if old.is_some() => {
                        vos::h_rename(&p, "/away/f");
                        sleep(op["v"].as_u64().unwrap() * 130 * MS + MS);
                        vos::h_rename("/away/f", &p);
                    }
                    "recreate" => {
                        vos::h_remove(&p);
                        sleep(op["v"].as_u64().unwrap() * 130 * MS + MS);
                        vos::h_write(&p, t.as_bytes());
                    }
                    "moved-in" => {
                        vos::h_write("/away/n", t.as_bytes());
                        vos::h_rename("/away/n", &p);
                    }
                    "append" => {
                        let mut b = old.unwrap_or_default();
                        b.extend_from_slice(t.as_bytes());
                        vos::h_write(&p, &b);
                    }
                    _ => {
                        if let Some(b) = &old {
                            vos::h_write(&p, b);
                        }
                    }
                }
                changed(&mut vs, f);
                note("nontrivial", 1);
            }
            "save" => {
                let p = path(vs[i].f);
                let before = disk(&p);
                let mt = vos::h_mtime(&p);
                let raw = vos::h_read(&p);
                let al = fe.alerts().len();
                let t0 = fe.contents(&v).unwrap();
                let before_last = vos::h_read(&p);
                fe.notify("save", json!({"view_id": v, "file_path": p}));
                let t = fe.contents(&v).unwrap();
                let refused = fe.alerts().len() > al;
                let base = match strip(&t, &vs[i].tokens) {
                    Ok(b) => b,
                    Err(e) => violation!("lost-work", "op {}: unsaved work in {} was lost: {}", n, v, e),
                };
                if before_last != raw {
                    violation!("wrote", "op {}: {} was written although no save was under way", n, p);
                }
                if refused {
                    if vos::h_read(&p) != raw {
                        violation!("failed-save-wrote", "op {}: the save of {} was refused and yet {} changed", n, v, p);
                    }
                    if vs[i].seen.len() == 1 {
                        violation!("own-save", "op {}: the save of {} was refused ({:?}) although nobody else changed {}", n, v, fe.alerts().last(), p);
                    }
                    note("refused", 1);
                } else {
                    let c = cfg_of(&fe, &v);
                    let d = disk(&p);
                    if d.as_deref() != Some(&on_disk(&t, &c)) && d.as_deref() != Some(&on_disk(&t0, &c)) {
                        violation!("saved-wrong", "op {}: {} was saved and {} contains {:?} instead of {}", n, v, p, d.map(|d| short(&d)), short(&t));
                    }
                    if vs[i].known && mt.is_some() && mt != vs[i].seen[0] {
                        // somebody changed it: fine only if the view had been reloaded with that
                        let b = before.clone().unwrap_or_default();
                        if base != b && on_disk(&base, &c) != b {
                            violation!("overwrote", "op {}: {} had been changed on disk to {} and {} overwrote it with {}", n, p, short(&b), v, short(&t));
                        }
                    }
                    vs[i].tokens.clear();
                    vs[i].known = true;
                    vs[i].bases = vec![t.clone(), d.unwrap()];
                    let f = vs[i].f;
                    let m = vos::h_mtime(&p);
                    for (j, x) in vs.iter_mut().enumerate() {
                        if j != i && x.f == f {
                            x.bases.push(on_disk(&t, &c));
                            x.seen.push(m);
                        }
                    }
                    vs[i].seen = vec![m];
                }
                note("nontrivial", 1);
            }
            "close" => {
                if vs.len() > 1 {
                    fe.notify("close_view", json!({ "view_id": v }));
                    vs.remove(i);
                }
            }
            "bad-save" => {
                let al = fe.alerts().len();
                fe.notify("save", json!({"view_id": v, "file_path": "/w/nowhere/x.txt"}));
                let _ = fe.contents(&v);
                if fe.alerts().len() == al {
                    violation!("no-alert", "op {}: {} cannot be saved in a directory that does not exist and nothing was said", n, v);
                }
                note("failed saves elsewhere", 1);
            }
            "save-as" => {
                let to = files.len() + n;
                let al = fe.alerts().len();
                fe.notify("save", json!({"view_id": v, "file_path": path(to)}));
                let t = fe.contents(&v).unwrap();
                if fe.alerts().len() > al {
                    violation!("save-refused", "op {}: {} cannot be saved as {}: {:?}", n, v, path(to), fe.alerts().last());
                }
                if let Err(e) = strip(&t, &vs[i].tokens) {
                    violation!("lost-work", "op {}: unsaved work in {} was lost: {}", n, v, e);
                }
                // the text may have been reloaded from the old file just before or after it was saved
                let d = disk(&path(to)).unwrap_or_default();
                vs[i].tokens.clear();
                vs[i].f = to;
                vs[i].known = true;
                vs[i].bases = vec![t, d];
                vs[i].seen = vec![vos::h_mtime(&path(to))];
                note("saves elsewhere", 1);
            }
            "undo-check" => {
                // the core's own save does not come back as a change
                quiesce(&fe);
                if vs.iter().filter(|x| x.f == vs[i].f).count() > 1 || vs[i].seen.len() > 1 || !vs[i].known {
                    continue;
                }
                let t0 = fe.contents(&v).unwrap();
                serial += 1;
                let t = format!("<{}>", serial);
                fe.edit(&v, "move_to_beginning_of_document", json!([]));
                fe.edit(&v, "insert", json!({ "chars": t }));
                let al = fe.alerts().len();
                fe.notify("save", json!({"view_id": v, "file_path": path(vs[i].f)}));
                let t1 = fe.contents(&v).unwrap();
                if fe.alerts().len() > al {
                    violation!("own-save", "op {}: the save of {} was refused ({:?}) although nobody else changed the file", n, v, fe.alerts().last());
                }
                quiesce(&fe);
                if fe.contents(&v).as_ref() != Some(&t1) {
                    violation!("own-save", "op {}: the text of {} changed after its own save from {} to {:?}", n, v, short(&t1), fe.contents(&v).map(|t| short(&t)));
                }
                if !fe.mirror(&v).pristine {
                    violation!("own-save", "op {}: {} is shown as modified right after its save", n, v);
                }
                fe.edit(&v, "undo", json!([]));
                let u = fe.contents(&v).unwrap();
                if u != t0 {
                    violation!("own-save", "op {}: after a save of {} undo gives {} instead of {}", n, v, short(&u), short(&t0));
                }
                fe.edit(&v, "redo", json!([]));
                if fe.contents(&v).unwrap() != t1 {
                    violation!("own-save", "op {}: after a save of {} redo does not bring back what was undone", n, v);
                }
                vs[i].tokens.clear();
                vs[i].bases = vec![t1];
                vs[i].seen = vec![vos::h_mtime(&path(vs[i].f))];
                // undo and redo have left the text as saved
                note("undo checks", 1);
            }
            _ => unreachable!(),
        }
        if op["sync"] == true || n + 1 == sc["ops"].as_array().unwrap().len() {
            quiesce(&fe);
            for x in vs.iter_mut() {
                let t = fe.contents(&x.v).unwrap();
                let base = match strip(&t, &x.tokens) {
                    Ok(b) => b,
                    Err(e) => violation!("lost-work", "op {}: unsaved work in {} was lost: {}", n, x.v, e),
                };
                let d = disk(&path(x.f));
                if x.tokens.is_empty() {
                    let c = cfg_of(&fe, &x.v);
                    if let (true, Some(d)) = (x.known, &d) {
                        if t != *d && on_disk(&t, &c) != *d {
                            violation!("not-noticed", "op {}: {} now contains {} and {} which has no unsaved edits still shows {}", n, path(x.f), short(d), x.v, short(&t));
                        }
                    }
                } else if !x.bases.contains(&base) {
                    violation!("mangled", "op {}: {} shows {} which is the unsaved work {:?} on a text that never was", n, x.v, short(&t), x.tokens);
                }
                let m = fe.mirror(&x.v);
                check_mirror(&format!("op {}", n), &x.v, &m, &t, None);
                if x.known && m.pristine != x.tokens.is_empty() {
                    violation!("pristine", "op {}: {} is shown as pristine={} with unsaved work {:?}", n, x.v, m.pristine, x.tokens);
                }
                sig(crate::driver::hash(t.as_bytes()));
                // where it stands: a view without unsaved work has been reloaded from the file
                if x.tokens.is_empty() && x.known && d.is_some() {
                    x.bases = vec![t, d.unwrap()];
                    x.seen = vec![vos::h_mtime(&path(x.f))];
                }
            }
        }
    }
}
/// Lets everything settle, including the delay with which changes of files are reported. The
/// debouncing thread of the `notify` crate can miss a wake-up and then sleeps until the next event
/// (not part of this repository), so a file nobody has open is changed a few times.
fn quiesce(fe: &Fe) {
    let was = sim().faults_on;
    sim().faults_on = false;
    for i in 0..3 {
        sleep(250 * MS);
        vos::h_write("/w/bystander", &[i]);
    }
    sleep(250 * MS);
    fe.settle();
    sim().faults_on = was;
}
pub const C17: Prop = Prop {
    id: "C17",
    gen: gen_c17,
    run: run_c17,
    rule: "a run counts when a file was changed or saved while open",
    real: REAL,
    stub: STUB,
    assumptions: FASSUME,
};
