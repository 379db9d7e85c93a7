//! Seeded search over many forked runs, minimisation, replay files and evidence.
use crate::rt::{self, Cfg, Outcome, Rng, Strategy, KNAMES, NK};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub type Decisions = Vec<(u8, u32, u64, u32)>;

/// One property: how to make a scenario from a seed and how to run it.
pub struct Prop {
    pub id: &'static str,
    /// variants of the scenario generator; one is chosen per seed
    pub gen: fn(&mut Rng, bool) -> Value,
    pub run: fn(&Value),
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Debug, Default)]
pub struct RunResult {
    pub verdict: Option<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub sig: u64,
    pub injected: Vec<u64>,
    pub notes: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub decisions: Decisions,
    pub overflow: bool,
}

fn cfg_of(sc: &Value) -> Cfg {
    let s = &sc["sched"];
    let mut c = Cfg::calm(sc["seed"].as_u64().unwrap_or(0));
    if s["strategy"] == "pct" {
        c.strategy = Strategy::Pct;
    }
    c.preempt_ppm = s["preempt"].as_u64().unwrap_or(0) as u32;
    c.pick_ppm = s["pick"].as_u64().unwrap_or(0) as u32;
    c.pc_mean = s["pc_mean"].as_u64().unwrap_or(0);
    if let Some(m) = s["max_steps"].as_u64() {
        c.max_steps = m;
    }
    for (i, n) in KNAMES.iter().enumerate() {
        c.ppm[i] = s["fault"][*n].as_u64().unwrap_or(0) as u32;
    }
    c
}
pub fn sched_json(c: &Cfg) -> Value {
    let mut f = serde_json::Map::new();
    for (i, n) in KNAMES.iter().enumerate() {
        if c.ppm[i] > 0 {
            f.insert(n.to_string(), json!(c.ppm[i]));
        }
    }
    json!({
        "strategy": if c.strategy == Strategy::Pct { "pct" } else { "random" },
        "preempt": c.preempt_ppm, "pick": c.pick_ppm, "pc_mean": c.pc_mean, "fault": f,
    })
}
pub fn make_scenario(p: &Prop, seed: u64, thorough: bool) -> Value {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ hash(p.id.as_bytes()));
    let mut sc = (p.gen)(&mut r, thorough);
    sc["seed"] = json!(seed);
    sc["property"] = json!(p.id);
    let mut c = Cfg::swarm(r.next());
    if r.below(12) == 0 {
        c = Cfg::calm(0); // a share of runs is plain FIFO, so that ordinary behaviour is covered too
    }
    let mut s = sched_json(&c);
    if let Some(o) = sc.get("sched_override").cloned() {
        merge(&mut s, &o);
    }
    sc["sched"] = s;
    sc
}
fn merge(a: &mut Value, b: &Value) {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                merge(a.entry(k.clone()).or_insert(Value::Null), v);
            }
        }
        (a, b) => *a = b.clone(),
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- forked children
pub struct Slot {
    shared: *mut rt::Shared,
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    start: Instant,
    job: Option<Job>,
    cpu: usize,
}
#[derive(Clone)]
pub struct Job {
    pub sc: Value,
    pub replay: Option<Decisions>,
    pub trace: bool,
    pub tag: u64,
}
pub struct Pool {
    slots: Vec<Slot>,
    edges: Vec<u8>,
    watchdog: Duration,
}
fn cpu_time(pid: i32) -> Duration {
    // the clock id that clock_getcpuclockid(3) gives
    let c = (!(pid as libc::c_long)) << 3 | 2;
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::syscall(libc::SYS_clock_gettime, c, &mut t as *mut _) != 0 {
            return Duration::from_secs(0);
        }
        Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
    }
}
impl Pool {
    pub fn new(n: usize) -> Pool {
        let cpus: Vec<usize> = unsafe {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
            (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect()
        };
        let n = n.min(cpus.len().max(1));
        let slots = (0..n)
            .map(|i| unsafe {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    std::mem::size_of::<rt::Shared>(),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                Slot { shared: p as *mut rt::Shared, pid: 0, fd: -1, buf: vec![], start: Instant::now(), job: None, cpu: cpus[i % cpus.len()] }
            })
            .collect();
        Pool { slots, edges: vec![0; 1 << 16], watchdog: Duration::from_secs(60) }
    }
    pub fn free(&self) -> Option<usize> {
        self.slots.iter().position(|s| s.job.is_none())
    }
    pub fn busy(&self) -> usize {
        self.slots.iter().filter(|s| s.job.is_some()).count()
    }
    pub fn edges(&self) -> usize {
        self.edges.iter().filter(|x| **x != 0).count()
    }
    pub fn start(&mut self, p: &Prop, job: Job) {
        let i = self.free().unwrap();
        let sl = &mut self.slots[i];
        let mut fds = [0i32; 2];
        unsafe {
            (*sl.shared).n = 0;
            (*sl.shared).overflow = 0;
            (*sl.shared).edges = [0; 1 << 16];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                rt::SHARED = sl.shared;
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(sl.cpu, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
                child(p, &job, fds[1]);
            }
            libc::close(fds[1]);
            sl.pid = pid;
            sl.fd = fds[0];
        }
        sl.buf.clear();
        sl.start = Instant::now();
        sl.job = Some(job);
    }
    /// Wait until at least one child finished.
    pub fn wait(&mut self) -> Vec<(Job, RunResult)> {
        let mut out = Vec::new();
        while out.is_empty() && self.busy() > 0 {
            let mut pf: Vec<libc::pollfd> = Vec::new();
            let mut ix = Vec::new();
            for (i, s) in self.slots.iter().enumerate() {
                if s.job.is_some() {
                    pf.push(libc::pollfd { fd: s.fd, events: libc::POLLIN, revents: 0 });
                    ix.push(i);
                }
            }
            unsafe {
                libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000);
            }
            for (k, i) in ix.iter().enumerate() {
                let sl = &mut self.slots[*i];
                let mut done = false;
                let mut stuck = false;
                if pf[k].revents != 0 {
                    let mut b = [0u8; 65536];
                    let n = unsafe { libc::read(sl.fd, b.as_mut_ptr() as *mut _, b.len()) };
                    if n > 0 {
                        sl.buf.extend_from_slice(&b[..n as usize]);
                    } else {
                        done = true;
                    }
                }
                // by processor time, so that a busy machine raises no alarm
                if !done && (cpu_time(sl.pid) > self.watchdog || sl.start.elapsed() > self.watchdog * 5) {
                    unsafe {
                        libc::kill(sl.pid, libc::SIGKILL);
                    }
                    stuck = true;
                    done = true;
                }
                if done {
                    let mut st = 0;
                    unsafe {
                        libc::waitpid(sl.pid, &mut st, 0);
                        libc::close(sl.fd);
                    }
                    let mut r = parse_result(&sl.buf).unwrap_or_else(|| {
                        let m = if stuck {
                            ("hang".to_string(), "run did not finish within the watchdog time: code loops without yielding".to_string())
                        } else {
                            ("abort".to_string(), format!("the process died: signal {} status {:#x}", st & 0x7f, st))
                        };
                        RunResult { verdict: Some(m), injected: vec![0; NK], ..Default::default() }
                    });
                    unsafe {
                        let sh = &*sl.shared;
                        r.overflow = sh.overflow != 0;
                        for d in &sh.dec[..sh.n as usize] {
                            r.decisions.push((d.kind, d.task, d.ctr, d.val));
                        }
                        for (a, b) in self.edges.iter_mut().zip(sh.edges.iter()) {
                            *a |= *b;
                        }
                    }
                    out.push((sl.job.take().unwrap(), r));
                }
            }
        }
        out
    }
    pub fn run_all(&mut self, p: &Prop, jobs: Vec<Job>) -> Vec<(Job, RunResult)> {
        let mut out = Vec::new();
        let mut it = jobs.into_iter();
        let mut next = it.next();
        while next.is_some() || self.busy() > 0 {
            while next.is_some() && self.free().is_some() {
                self.start(p, next.take().unwrap());
                next = it.next();
            }
            out.extend(self.wait());
        }
        out
    }
}
fn child(p: &Prop, job: &Job, fd: i32) -> ! {
    unsafe {
        // runaway memory ends this run, not the sandbox
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        if std::env::var_os("XISIM_STDERR").is_none() {
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(n, 2);
        }
    }
    let mut cfg = cfg_of(&job.sc);
    cfg.replay = job.replay.clone();
    cfg.trace = job.trace;
    let sc = job.sc.clone();
    let run = p.run;
    let o: Outcome = rt::run(cfg, move || run(&sc));
    let v = json!({
        "verdict": o.verdict.map(|v| json!([v.0, v.1])),
        "steps": o.steps, "switches": o.switches, "sim_ns": o.sim_ns, "sig": o.sig,
        "injected": o.injected.to_vec(), "notes": o.notes, "log": o.log,
    });
    let b = serde_json::to_vec(&v).unwrap();
    let mut off = 0;
    unsafe {
        while off < b.len() {
            let n = libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::_exit(0)
    }
}
fn parse_result(b: &[u8]) -> Option<RunResult> {
    let v: Value = serde_json::from_slice(b).ok()?;
    Some(RunResult {
        verdict: v["verdict"].as_array().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string())),
        steps: v["steps"].as_u64()?,
        switches: v["switches"].as_u64()?,
        sim_ns: v["sim_ns"].as_u64()?,
        sig: v["sig"].as_u64()?,
        injected: v["injected"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0)).collect(),
        notes: serde_json::from_value(v["notes"].clone()).ok()?,
        log: serde_json::from_value(v["log"].clone()).ok()?,
        ..Default::default()
    })
}

// ---------------------------------------------------------------- minimisation
fn same(a: &Option<(String, String)>, kind: &str) -> bool {
    a.as_ref().map(|v| v.0 == kind).unwrap_or(false)
}
struct Min<'a> {
    pool: &'a mut Pool,
    p: &'a Prop,
    kind: String,
    until: Instant,
    tries: u64,
    known: &'a [Known],
}
impl<'a> Min<'a> {
    fn first_ok(&mut self, cands: Vec<(Value, Decisions)>) -> Option<(Value, Decisions)> {
        // try candidates in batches; keep the first (in order) that still fails in the same way
        for chunk in cands.chunks(self.pool.slots.len()) {
            if Instant::now() > self.until {
                return None;
            }
            let jobs = chunk.iter().enumerate().map(|(i, (s, d))| Job { sc: s.clone(), replay: Some(d.clone()), trace: false, tag: i as u64 }).collect();
            let rs = self.pool.run_all(self.p, jobs);
            self.tries += rs.len() as u64;
            let mut best: Option<(u64, Job, RunResult)> = None;
            for (j, r) in rs {
                if same(&r.verdict, &self.kind) && !is_known(self.known, self.p.id, r.verdict.as_ref().unwrap()).is_some() {
                    if best.as_ref().map(|b| j.tag < b.0).unwrap_or(true) {
                        best = Some((j.tag, j, r));
                    }
                }
            }
            if let Some((_, j, r)) = best {
                let _ = r;
                return Some((j.sc, j.replay.unwrap()));
            }
        }
        None
    }
    fn shrink_list<T: Clone>(&mut self, full: Vec<T>, rebuild: &dyn Fn(&[T]) -> (Value, Decisions)) -> Vec<T> {
        let mut cur = full;
        let mut n = 2usize;
        while cur.len() >= 1 && Instant::now() < self.until {
            let sz = (cur.len() + n - 1) / n;
            let mut cands = Vec::new();
            let mut kept: Vec<Vec<T>> = Vec::new();
            let mut i = 0;
            while i < cur.len() {
                let mut v = cur[..i].to_vec();
                v.extend_from_slice(&cur[(i + sz).min(cur.len())..]);
                cands.push(rebuild(&v));
                kept.push(v);
                i += sz;
            }
            // identify which candidate won by comparing serialised scenario+decisions
            let snap: Vec<(String, Decisions)> = cands.iter().map(|(s, d)| (s.to_string(), d.clone())).collect();
            match self.first_ok(cands) {
                Some((s, d)) => {
                    let ss = s.to_string();
                    let k = snap.iter().position(|x| x.0 == ss && x.1 == d).unwrap();
                    cur = kept[k].clone();
                    n = n.max(2).min(cur.len().max(2));
                    if n > 2 {
                        n -= 1;
                    }
                }
                None => {
                    if sz <= 1 {
                        break;
                    }
                    n = (n * 2).min(cur.len());
                }
            }
        }
        cur
    }
}
fn minimise(pool: &mut Pool, p: &Prop, sc: &Value, dec: &Decisions, kind: &str, secs: u64, known: &[Known]) -> (Value, Decisions, u64) {
    let mut m = Min { pool, p, kind: kind.to_string(), until: Instant::now() + Duration::from_secs(secs), tries: 0, known };
    let mut sc = sc.clone();
    let mut dec = dec.clone();
    // all at default first
    if m.first_ok(vec![(sc.clone(), vec![])]).is_some() {
        dec = vec![];
    } else {
        // drop whole kinds
        for k in 0..NK as u8 {
            if dec.iter().any(|d| d.0 == k) {
                let d2: Decisions = dec.iter().filter(|d| d.0 != k).cloned().collect();
                if m.first_ok(vec![(sc.clone(), d2.clone())]).is_some() {
                    dec = d2;
                }
            }
        }
    }
    for round in 0..2 {
        let before = (sc["ops"].as_array().map(|a| a.len()).unwrap_or(0), dec.len());
        if let Some(ops) = sc["ops"].as_array().cloned() {
            let base = sc.clone();
            let d = dec.clone();
            let ops2 = m.shrink_list(ops, &|o: &[Value]| {
                let mut s = base.clone();
                s["ops"] = json!(o);
                (s, d.clone())
            });
            sc["ops"] = json!(ops2);
        }
        if !dec.is_empty() {
            let base = sc.clone();
            dec = m.shrink_list(dec, &|o: &[(u8, u32, u64, u32)]| (base.clone(), o.to_vec()));
        }
        let after = (sc["ops"].as_array().map(|a| a.len()).unwrap_or(0), dec.len());
        if round > 0 || after == before {
            break;
        }
    }
    (sc, dec, m.tries)
}

// ---------------------------------------------------------------- known findings
pub struct Known {
    /// "*": any property whose runs include the component the finding is in
    pub property: String,
    pub kind: String,
    pub contains: String,
    pub what: String,
}
pub fn load_known() -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.jsonl") {
        for l in s.lines() {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                if j["status"] == "open" {
                    v.push(Known {
                        property: j["property"].as_str().unwrap_or("").into(),
                        kind: j["kind"].as_str().unwrap_or("").into(),
                        contains: j["contains"].as_str().unwrap_or("").into(),
                        what: j["what"].as_str().unwrap_or("").into(),
                    });
                }
            }
        }
    }
    v
}
fn is_known<'a>(k: &'a [Known], id: &str, v: &(String, String)) -> Option<&'a Known> {
    k.iter().find(|k| (k.property == id || k.property == "*") && k.kind == v.0 && v.1.contains(&k.contains))
}

fn dec_json(d: &Decisions) -> Value {
    json!(d.iter().map(|x| json!([KNAMES[x.0 as usize], x.1, x.2, x.3])).collect::<Vec<_>>())
}
fn dec_parse(v: &Value) -> Decisions {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| {
                    let k = KNAMES.iter().position(|n| x[0] == *n).unwrap() as u8;
                    (k, x[1].as_u64().unwrap() as u32, x[2].as_u64().unwrap(), x[3].as_u64().unwrap() as u32)
                })
                .collect()
        })
        .unwrap_or_default()
}

fn workers() -> usize {
    std::env::var("XISIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

pub fn check(p: &Prop, tier: &str, seed: u64, budget: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let known = load_known();
    let mut pool = Pool::new(workers());
    let until = t0 + Duration::from_secs(budget);
    let mut next_seed = seed.wrapping_mul(1_000_000_007);
    let mut started = 0u64;
    let mut runs = 0u64;
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut inj = vec![0u64; NK];
    let mut runs_with = vec![0u64; NK];
    let (mut steps, mut switches, mut sim_ns) = (0u64, 0u64, 0u64);
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Option<(Value, RunResult)> = None;
    let mut harness: Vec<String> = Vec::new();
    let mut first_sig: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut det_checked, mut det_bad) = (0u64, 0u64);
    let mut det_queue: Vec<Value> = Vec::new();
    let max_runs: u64 = std::env::var("XISIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    while found.is_none() && (pool.busy() > 0 || (Instant::now() < until && started < max_runs)) {
        while pool.free().is_some() && Instant::now() < until && started < max_runs {
            if let Some(sc) = det_queue.pop() {
                pool.start(p, Job { sc, replay: None, trace: false, tag: 1 });
                continue;
            }
            next_seed = next_seed.wrapping_add(1);
            let sc = make_scenario(p, next_seed, thorough);
            pool.start(p, Job { sc, replay: None, trace: false, tag: 0 });
            started += 1;
        }
        for (job, r) in pool.wait() {
            let sd = job.sc["seed"].as_u64().unwrap();
            if job.tag == 1 {
                det_checked += 1;
                if first_sig.get(&sd) != Some(&r.sig) {
                    det_bad += 1;
                    eprintln!("determinism: seed {} gave different executions", sd);
                }
                continue;
            }
            runs += 1;
            steps += r.steps;
            switches += r.switches;
            sim_ns += r.sim_ns;
            for i in 0..NK {
                let x = r.injected.get(i).copied().unwrap_or(0);
                inj[i] += x;
                if x > 0 {
                    runs_with[i] += 1;
                }
            }
            for (k, v) in &r.notes {
                *notes.entry(k.clone()).or_insert(0) += v;
            }
            sigs.insert(r.sig);
            if r.notes.get("nontrivial").copied().unwrap_or(0) > 0 {
                nontrivial.insert(r.sig);
            }
            if samples.len() < 3 && r.notes.get("nontrivial").copied().unwrap_or(0) > 0 {
                let mut s = job.sc.clone();
                if let Some(a) = s["ops"].as_array_mut() {
                    a.truncate(40);
                }
                samples.push(s);
            }
            if runs % 64 == 1 && r.verdict.is_none() {
                first_sig.insert(sd, r.sig);
                det_queue.push(job.sc.clone());
            }
            if let Some(v) = &r.verdict {
                if v.0 == "harness" {
                    harness.push(format!("seed {}: {}", sd, v.1));
                } else if let Some(k) = is_known(&known, p.id, v) {
                    *known_hits.entry(k.what.clone()).or_insert(0) += 1;
                } else if found.is_none() {
                    found = Some((job.sc.clone(), r.clone()));
                }
            }
        }
    }
    while pool.busy() > 0 {
        pool.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    let mut viol = Value::Null;
    if let Some((sc, r)) = found {
        let (kind, msg) = r.verdict.clone().unwrap();
        eprintln!("found: seed {} {}: {}", sc["seed"], kind, msg);
        violations = 1;
        code = 1;
        let secs = std::env::var("XISIM_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 240 } else { 75 });
        let direct = r.overflow || kind == "hang";
        let (msc, mdec, tries) = if direct { (sc.clone(), r.decisions.clone(), 0) } else { minimise(&mut pool, p, &sc, &r.decisions, &kind, secs, &known) };
        // final run with trace, from the replay data alone
        let fin = pool.run_all(p, vec![Job { sc: msc.clone(), replay: if direct { None } else { Some(mdec.clone()) }, trace: true, tag: 0 }]).pop().unwrap().1;
        let ok = same(&fin.verdict, &kind);
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{}/{}-{}.json", dir, p.id, sc["seed"]);
        let rep = json!({
            "property": p.id, "kind": kind, "message": fin.verdict.as_ref().map(|v| v.1.clone()).unwrap_or(msg.clone()),
            "original_seed": sc["seed"], "original_message": msg,
            "mode": if direct { "seed" } else { "decisions" },
            "scenario": msc, "decisions": if direct { Value::Null } else { dec_json(&mdec) },
            "minimisation": {"runs": tries, "decisions_before": r.decisions.len(), "decisions_after": mdec.len(),
                "ops_before": sc["ops"].as_array().map(|a| a.len()), "ops_after": msc["ops"].as_array().map(|a| a.len())},
            "reproduced": ok, "signature": fin.sig, "trace": fin.log,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  kind: {}", kind);
        println!("  {}", rep["message"].as_str().unwrap_or(""));
        println!("  seed {} reproduced from replay file: {}", sc["seed"], ok);
        viol = json!({"kind": kind, "replay": path, "reproduced": ok});
    }
    for (k, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({} runs were set aside)", p.id, k, n);
    }
    for k in known.iter().filter(|k| k.property == p.id || (k.property == "*" && p.real.iter().any(|r| r.contains("core-lib")))) {
        if !known_hits.contains_key(&k.what) {
            println!("KNOWN-FINDING: property={} {} (listed; not met in this run)", p.id, k.what);
        }
    }
    let mut faults = serde_json::Map::new();
    for i in 0..NK {
        if inj[i] > 0 {
            faults.insert(KNAMES[i].into(), json!({"injected": inj[i], "runs": runs_with[i]}));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "distinct_executions": sigs.len(),
            "distinct_measure": "64-bit signature of a run: every context switch (from, to, position) and every logged event",
            "runs_per_hour": (runs as f64 / search_s * 3600.0) as u64,
            "seeds": {"first": seed.wrapping_mul(1_000_000_007).wrapping_add(1), "count": runs},
            "simulated_seconds": sim_ns as f64 / 1e9,
            "scheduling_points": steps, "context_switches": switches,
            "faults_and_schedule_choices": faults,
            "code_edges_reached": pool.edges(), "code_edges_total": crate::interpose::n_guards(),
            "workload": notes,
            "determinism_recheck": {"runs": det_checked, "different": det_bad},
            "real_components": p.real, "stub_components": p.stub,
            "known_findings_met": known_hits,
            "violation": viol,
        },
        "assumptions": p.assumptions,
        "wall_s": wall, "violations": violations,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs ({} distinct, {} nontrivial), {:.1} simulated s, {:.1} s wall, {} edges, determinism {}/{}",
        p.id, runs, sigs.len(), nontrivial.len(), sim_ns as f64 / 1e9, wall, pool.edges(), det_checked - det_bad, det_checked
    );
    if std::env::var_os("XISIM_V").is_some() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["workload"]).unwrap());
        println!("{}", serde_json::to_string(&ev["coverage"]["faults_and_schedule_choices"]).unwrap());
    }
    if code == 0 && !harness.is_empty() {
        for h in harness.iter().take(5) {
            println!("harness error: {}", h);
        }
        return 2;
    }
    code
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let p = props.iter().find(|p| v["property"] == p.id).expect("property");
    let mut pool = Pool::new(1);
    let dec = if v["mode"] == "seed" { None } else { Some(dec_parse(&v["decisions"])) };
    let r = pool.run_all(p, vec![Job { sc: v["scenario"].clone(), replay: dec, trace: true, tag: 0 }]).pop().unwrap().1;
    for l in &r.log {
        println!("{}", l);
    }
    let sig_same = v["signature"].as_u64() == Some(r.sig);
    match &r.verdict {
        Some((k, m)) if v["kind"] == k.as_str() => {
            println!("REPRODUCED {}: {} (identical execution: {})", k, m, sig_same);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        o => {
            println!("not reproduced: {:?}", o);
            0
        }
    }
}
pub fn one(p: &Prop, seed: u64, trace: bool) {
    let sc = make_scenario(p, seed, std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"));
    let mut pool = Pool::new(1);
    let t = Instant::now();
    if trace {
        println!("{}", serde_json::to_string(&sc).unwrap());
    }
    let r = pool.run_all(p, vec![Job { sc: sc.clone(), replay: None, trace, tag: 0 }]).pop().unwrap().1;
    if trace {
        for l in &r.log {
            println!("{}", l);
        }
    }
    println!(
        "seed {} verdict {:?} steps {} switches {} sim {:.3}s sig {:x} dec {} wall {:?} notes {:?}",
        seed, r.verdict, r.steps, r.switches, r.sim_ns as f64 / 1e9, r.sig, r.decisions.len(), t.elapsed(), r.notes
    );
}
/// Minimises one failing seed and prints what is left of its scenario.
pub fn min_one(p: &Prop, seed: u64, thorough: bool, secs: u64) {
    let sc = make_scenario(p, seed, thorough);
    let mut pool = Pool::new(workers());
    let r = pool.run_all(p, vec![Job { sc: sc.clone(), replay: None, trace: false, tag: 0 }]).pop().unwrap().1;
    let (kind, _) = match &r.verdict {
        Some(v) => v.clone(),
        None => {
            println!("seed {} passes", seed);
            return;
        }
    };
    let known = load_known();
    let (msc, mdec, _) = minimise(&mut pool, p, &sc, &r.decisions, &kind, secs, &known);
    let fin = pool.run_all(p, vec![Job { sc: msc.clone(), replay: Some(mdec.clone()), trace: true, tag: 0 }]).pop().unwrap().1;
    println!("== seed {} ops {} decisions {}", seed, msc["ops"].as_array().map(|a| a.len()).unwrap_or(0), mdec.len());
    let mut s = msc.clone();
    let ops = s["ops"].take();
    println!("{}", s);
    for o in ops.as_array().unwrap_or(&vec![]) {
        println!("  {}", o);
    }
    if std::env::var_os("XISIM_MSG").is_some() {
        for l in &fin.log {
            println!("    {}", l);
        }
    }
    println!("-> {:?}", fin.verdict);
}
