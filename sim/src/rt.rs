//! Deterministic scheduler: real pthreads parked on a baton, virtual clock, one decision tape.
//! Only the task that holds the baton touches `SIM`, so the state needs no lock.
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

pub const NOTASK: u32 = u32::MAX;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub struct Tls {
    pub task: Cell<u32>,
    pub in_rt: Cell<u32>,
    pub pc: Cell<u64>,
    pub next_pc: Cell<u64>,
}
thread_local! {
    pub static TLS: Tls = const { Tls { task: Cell::new(NOTASK), in_rt: Cell::new(0), pc: Cell::new(0), next_pc: Cell::new(u64::MAX) } };
}

#[inline]
pub fn cur_task() -> u32 {
    TLS.with(|t| t.task.get())
}
/// True when the calling thread is a simulated task and not already inside the runtime.
#[inline]
pub fn active() -> bool {
    TLS.with(|t| t.task.get() != NOTASK && t.in_rt.get() == 0)
}
pub struct Rt;
impl Rt {
    #[inline]
    pub fn enter() -> Rt {
        TLS.with(|t| t.in_rt.set(t.in_rt.get() + 1));
        Rt
    }
}
impl Drop for Rt {
    #[inline]
    fn drop(&mut self) {
        TLS.with(|t| t.in_rt.set(t.in_rt.get() - 1));
    }
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, ppm: u32) -> bool {
        (self.next() >> 20) % 1_000_000 < ppm as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

// ---------------------------------------------------------------- decisions
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    Preempt = 0,
    Pick,
    Pc,
    Stall,
    TimerLate,
    ShortRead,
    ShortWrite,
    Eintr,
    Spurious,
    PipeCap,
    FsErr,
    ClockJump,
    Kill,
    Crash,
    Persist,
    NetDelay,
    NetDrop,
    NetDup,
    NetReorder,
    Garbage,
    Disk,
    Inotify,
    Misc,
}
pub const NK: usize = 23;
pub const KNAMES: [&str; NK] = [
    "preempt", "pick", "pc_preempt", "stall", "timer_late", "short_read", "short_write", "eintr",
    "spurious_wake", "pipe_cap", "fs_err", "clock_jump", "kill", "crash", "persist", "net_delay",
    "net_drop", "net_dup", "net_reorder", "garbage", "disk", "inotify", "misc",
];
impl K {
    fn is_fault(self) -> bool {
        !matches!(self, K::Preempt | K::Pick | K::Pc | K::Misc | K::Persist)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    Random,
    Pct,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub strategy: Strategy,
    pub preempt_ppm: u32,
    /// chance that a forced pick is not FIFO
    pub pick_ppm: u32,
    /// mean number of basic blocks between preemptions of instrumented code; 0 = never
    pub pc_mean: u64,
    /// probability (ppm) per fault kind
    pub ppm: [u32; NK],
    pub max_steps: u64,
    pub replay: Option<Vec<(u8, u32, u64, u32)>>,
    /// only this many bytes of decision trace kept
    pub trace: bool,
}
impl Cfg {
    /// Swarm-style random configuration of the scheduler; fault kinds start at 0.
    pub fn swarm(seed: u64) -> Cfg {
        let mut r = Rng::new(seed ^ 0x5151);
        let strategy = if r.below(4) == 0 { Strategy::Pct } else { Strategy::Random };
        let preempt_ppm = *r.pick(&[0, 10_000, 50_000, 200_000, 500_000]);
        let pc_mean = *r.pick(&[0, 0, 20, 60, 200, 2_000, 20_000]);
        let pick_ppm = *r.pick(&[0, 300_000, 800_000, 1_000_000]);
        let mut ppm = [0u32; NK];
        ppm[K::Stall as usize] = *r.pick(&[0, 0, 500, 5_000]);
        ppm[K::TimerLate as usize] = *r.pick(&[0, 100_000]);
        ppm[K::Spurious as usize] = *r.pick(&[0, 0, 20_000]);
        ppm[K::ShortRead as usize] = *r.pick(&[0, 100_000, 500_000]);
        ppm[K::ShortWrite as usize] = *r.pick(&[0, 100_000, 500_000]);
        ppm[K::Eintr as usize] = *r.pick(&[0, 0, 50_000]);
        Cfg { seed, strategy, preempt_ppm, pick_ppm, pc_mean, ppm, max_steps: 60_000_000, replay: None, trace: false }
    }
    pub fn calm(seed: u64) -> Cfg {
        Cfg {
            seed,
            strategy: Strategy::Random,
            preempt_ppm: 0,
            pick_ppm: 0,
            pc_mean: 0,
            ppm: [0; NK],
            max_steps: 60_000_000,
            replay: None,
            trace: false,
        }
    }
}

// ---------------------------------------------------------------- tasks
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Key {
    None,
    Futex(usize),
    Join(u32),
    Pipe(u32),
    Proc(u32),
    Poll(u32),
    Mail(u64),
    Sleep,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked,
    Done,
    Dead,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    Woken,
    Timeout,
}
pub struct Task {
    pub proc: u32,
    pub name: String,
    pub state: St,
    pub word: &'static AtomicU32,
    pub key: Key,
    pub deadline: u64,
    pub wake: Wake,
    pub seq: u64,
    pub prio: i64,
    pub counters: [u64; NK],
    pub dtors: Vec<(unsafe extern "C" fn(*mut u8), usize)>,
    pub pthread: u64,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub proc: u32,
    pub task: String,
    pub msg: String,
    pub loc: String,
}

pub struct Sim {
    pub cfg: Cfg,
    pub tasks: Vec<Task>,
    pub cur: u32,
    pub now: u64,
    pub real_skew: i64,
    pub min_deadline: u64,
    pub seq: u64,
    pub steps: u64,
    pub switches: u64,
    pub rng: Rng,
    pub entropy: Rng,
    pub replay: Option<HashMap<(u8, u32, u64), u32>>,
    pub replay_pc: HashMap<u32, VecDeque<(u64, u32)>>,
    pub faults_on: bool,
    pub stalled: u64,
    /// only threads that the harness named are stalled (not those a library starts)
    pub stall_named: bool,
    pub injected: [u64; NK],
    pub sig: u64,
    pub log: Vec<String>,
    pub panics: Vec<PanicRec>,
    pub next_proc: Option<(u32, String)>,
    pub verdict: Option<(String, String)>,
    pub done: bool,
    pub pct_points: Vec<u64>,
    pub pct_low: i64,
    pub mail_seq: u64,
    pub notes: BTreeMap<String, u64>,
    pub cur_ctx: String,
    pub dead_detect: bool,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
static FINISH: AtomicU32 = AtomicU32::new(0);

#[allow(static_mut_refs)]
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

// ---------------------------------------------------------------- shared-memory decision record
// The parent maps this before forking, so that the decisions of a run that dies survive it.
pub const MAXDEC: usize = 1 << 18;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct DecRec {
    pub kind: u8,
    pub task: u32,
    pub ctr: u64,
    pub val: u32,
}
#[repr(C)]
pub struct Shared {
    pub n: u32,
    pub overflow: u32,
    pub edges: [u8; 1 << 16],
    pub dec: [DecRec; MAXDEC],
}
pub static mut SHARED: *mut Shared = std::ptr::null_mut();

fn record(kind: K, task: u32, ctr: u64, val: u32) {
    unsafe {
        let s = SHARED;
        if s.is_null() {
            return;
        }
        let n = (*s).n as usize;
        if n < MAXDEC {
            (*s).dec[n] = DecRec { kind: kind as u8, task, ctr, val };
            (*s).n = n as u32 + 1;
        } else {
            (*s).overflow = 1;
        }
    }
}

impl Sim {
    #[inline]
    fn mix(&mut self, v: u64) {
        self.sig = (self.sig ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        self.sig ^= self.sig >> 29;
    }
}

/// The single source of nondeterministic choice. 0 is the benign default.
pub fn decide(kind: K, n: u32, ppm: u32) -> u32 {
    let _g = Rt::enter();
    let s = sim();
    let cur = s.cur;
    let t = &mut s.tasks[cur as usize];
    t.counters[kind as usize] += 1;
    let ctr = t.counters[kind as usize];
    if n <= 1 || (kind.is_fault() && !s.faults_on) {
        return 0;
    }
    let v = if let Some(rp) = &s.replay {
        let v = rp.get(&(kind as u8, cur, ctr)).copied().unwrap_or(0).min(n - 1);
        v
    } else if ppm > 0 && s.rng.chance(ppm) {
        if kind == K::Pick {
            s.rng.below(n as u64) as u32 // every runnable task has a chance: no starvation
        } else {
            1 + s.rng.below(n as u64 - 1) as u32
        }
    } else {
        0
    };
    if v != 0 {
        s.injected[kind as usize] += 1;
        record(kind, cur, ctr, v);
        if s.cfg.trace && kind.is_fault() {
            log(format!("FAULT {} -> {}", KNAMES[kind as usize], v));
        }
    }
    v
}
/// Fault decision with the run's configured probability for that kind.
pub fn fault(kind: K, n: u32) -> u32 {
    let p = sim().cfg.ppm[kind as usize];
    decide(kind, n, p)
}

fn runnable_others(s: &Sim) -> Vec<u32> {
    let mut v: Vec<u32> = Vec::new();
    for (i, t) in s.tasks.iter().enumerate() {
        if t.state == St::Runnable && i as u32 != s.cur {
            v.push(i as u32);
        }
    }
    v.sort_by_key(|&i| s.tasks[i as usize].seq);
    v
}

fn fire_timers(s: &mut Sim) {
    if s.now < s.min_deadline {
        return;
    }
    let now = s.now;
    let mut md = u64::MAX;
    let mut due: Vec<usize> = Vec::new();
    for (i, t) in s.tasks.iter().enumerate() {
        if t.state == St::Blocked && t.deadline != u64::MAX {
            if t.deadline <= now {
                due.push(i);
            } else {
                md = md.min(t.deadline);
            }
        }
    }
    due.sort_by_key(|&i| (s.tasks[i].deadline, i));
    for i in due {
        s.seq += 1;
        let q = s.seq;
        let t = &mut s.tasks[i];
        t.state = St::Runnable;
        t.wake = Wake::Timeout;
        t.deadline = u64::MAX;
        t.key = Key::None;
        t.seq = q;
    }
    s.min_deadline = md;
}

fn futex_wait_raw(w: &AtomicU32, v: u32) {
    unsafe {
        crate::interpose::raw_syscall(libc::SYS_futex, w as *const _ as usize, 128 /*WAIT|PRIVATE*/, v as usize, 0, 0, 0);
    }
}
fn futex_wake_raw(w: &AtomicU32) {
    unsafe {
        crate::interpose::raw_syscall(libc::SYS_futex, w as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

fn hand_to(next: u32) {
    let s = sim();
    s.cur = next;
    s.switches += 1;
    let w = s.tasks[next as usize].word;
    w.store(1, Ordering::SeqCst);
    futex_wake_raw(w);
}
fn wait_baton(me: u32) {
    let w = sim().tasks[me as usize].word;
    wait_word(w);
}
/// Stack dumps of blocked tasks, asked for by storing 2 in a task's word.
static DUMPED: AtomicU32 = AtomicU32::new(0);
static mut DUMP: String = String::new();
#[allow(static_mut_refs)]
fn wait_word(w: &AtomicU32) {
    loop {
        match w.swap(0, Ordering::SeqCst) {
            0 => futex_wait_raw(w, 0),
            2 => {
                let b = std::backtrace::Backtrace::force_capture().to_string();
                unsafe {
                    DUMP = b;
                }
                DUMPED.store(1, Ordering::SeqCst);
                futex_wake_raw(&DUMPED);
            }
            _ => return,
        }
    }
}
/// The stack of a task other than the current one; only after the verdict.
#[allow(static_mut_refs)]
fn stack_of(i: usize) -> String {
    let w = sim().tasks[i].word;
    w.store(2, Ordering::SeqCst);
    futex_wake_raw(w);
    while DUMPED.swap(0, Ordering::SeqCst) == 0 {
        futex_wait_raw(&DUMPED, 0);
    }
    let s = unsafe { std::mem::take(&mut DUMP) };
    // functions only
    s.lines().filter(|l| !l.trim_start().starts_with("at ")).map(|l| l.trim()).filter(|l| !l.contains(" std::") && !l.contains(" core::") && !l.contains(" xisim::")).collect::<Vec<_>>().join(" < ")
}
/// Two threads of the notify crate that wait for each other's lock: the timer holds its queue and
/// wants the buffer of operations, the event loop holds that buffer and wants the queue.
fn notify_deadlock() -> bool {
    let s = sim();
    let cand: Vec<usize> = (0..s.tasks.len()).filter(|&i| i as u32 != s.cur && s.tasks[i].state == St::Blocked && s.tasks[i].deadline == u64::MAX && matches!(s.tasks[i].key, Key::Futex(_))).collect();
    let (mut a, mut b) = (false, false);
    for i in cand {
        let st = stack_of(i);
        if s.cfg.trace {
            s.log.push(format!("    stack of t{}: {}", i, st));
        }
        let lock = st.contains("lock_contended");
        a |= lock && st.contains("ScheduleWorker>::fire_event");
        b |= lock && (st.contains("WatchTimer>::schedule") || st.contains("WatchTimer>::ignore"));
    }
    a && b
}
fn park_forever() -> ! {
    loop {
        unsafe {
            crate::interpose::raw_syscall(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
        }
    }
}

/// Choose the next task when the current one cannot (or must not) continue. The current task is a
/// candidate only if it is runnable (its own timer fired, or it merely yielded).
fn pick_forced() -> u32 {
    loop {
        let s = sim();
        fire_timers(s);
        let mut v: Vec<u32> = Vec::new();
        for (i, t) in s.tasks.iter().enumerate() {
            if t.state == St::Runnable {
                v.push(i as u32);
            }
        }
        if v.is_empty() {
            if s.min_deadline == u64::MAX {
                let mut d = String::new();
                for t in s.tasks.iter().filter(|t| t.state == St::Blocked) {
                    let k = match t.key {
                        Key::Futex(_) => "lock/condvar".to_string(),
                        k => format!("{:?}", k),
                    };
                    d.push_str(&format!("[p{} {} {}] ", t.proc, t.name, k));
                }
                verdict("deadlock", format!("no task can run: {}", d));
            }
            // idle: time jumps to the next deadline
            s.now = s.now.max(s.min_deadline);
            s.min_deadline = s.now; // force a rescan
            let late = decide(K::TimerLate, 4, sim().cfg.ppm[K::TimerLate as usize]);
            let s = sim();
            s.now += [0, 50_000, 400_000, 3_000_000][late as usize];
            continue;
        }
        if v.len() == 1 {
            return v[0];
        }
        v.sort_by_key(|&i| s.tasks[i as usize].seq);
        let idx = choose(K::Pick, &v);
        return v[idx as usize];
    }
}

fn choose(kind: K, v: &[u32]) -> u32 {
    let s = sim();
    if s.replay.is_none() && s.cfg.strategy == Strategy::Pct {
        let best = (0..v.len()).max_by_key(|&i| s.tasks[v[i] as usize].prio).unwrap() as u32;
        let cur = s.cur;
        let t = &mut s.tasks[cur as usize];
        t.counters[kind as usize] += 1;
        let ctr = t.counters[kind as usize];
        if best != 0 {
            s.injected[kind as usize] += 1;
            record(kind, cur, ctr, best);
        }
        return best;
    }
    let p = if kind == K::Pick { s.cfg.pick_ppm } else { s.cfg.preempt_ppm };
    decide(kind, v.len() as u32, p)
}

fn step(s: &mut Sim) {
    s.steps += 1;
    s.now += 1_000;
    if s.steps > s.cfg.max_steps {
        verdict("livelock", format!("step budget of {} exhausted", s.cfg.max_steps));
    }
    if s.cfg.strategy == Strategy::Pct {
        if let Some(&p) = s.pct_points.last() {
            if s.steps >= p {
                s.pct_points.pop();
                s.pct_low -= 1;
                let c = s.cur as usize;
                s.tasks[c].prio = s.pct_low;
            }
        }
    }
}

fn switch(next: u32) {
    let s = sim();
    let me = s.cur;
    if next == me {
        return;
    }
    let (a, b) = (me as u64, next as u64);
    s.mix((a << 32) ^ b ^ 0x1_0000_0000_0000);
    s.seq += 1;
    let q = s.seq;
    s.tasks[me as usize].seq = q;
    hand_to(next);
    wait_baton(me);
}

/// A scheduling point at which the current task stays runnable.
pub fn yield_point() {
    let _g = Rt::enter();
    let s = sim();
    step(s);
    let spared = s.stall_named && s.tasks[s.cur as usize].name.starts_with('t');
    let ppm = if s.stalled < 6 * SEC && !spared { s.cfg.ppm[K::Stall as usize] } else { 0 };
    let st = decide(K::Stall, 6, ppm);
    if st != 0 {
        let d = [0, 1, 5, 30, 200, 1500][st as usize] * MS;
        sim().stalled += d;
        block(Key::Sleep, sim().now + d);
        return;
    }
    let s = sim();
    fire_timers(s);
    let mut v = runnable_others(s);
    if v.is_empty() {
        return;
    }
    v.insert(0, s.cur);
    let i = choose(K::Preempt, &v);
    if i != 0 {
        switch(v[i as usize]);
    }
}
/// sched_yield: let somebody else run if anybody can; if nobody can, let time pass a little.
pub fn yield_now() {
    let _g = Rt::enter();
    let s = sim();
    step(s);
    s.now += 20_000;
    if s.cfg.strategy == Strategy::Pct {
        s.pct_low -= 1;
        let c = s.cur as usize;
        s.tasks[c].prio = s.pct_low;
    }
    s.seq += 1;
    let q = s.seq;
    let c = s.cur as usize;
    s.tasks[c].seq = q;
    let n = pick_forced();
    switch(n);
}

/// Preemption inside instrumented code (one basic block reached its quota).
#[inline(never)]
pub fn pc_fire() {
    let _g = Rt::enter();
    let s = sim();
    let cur = s.cur;
    let pc = TLS.with(|t| t.pc.get());
    let mut pick = 0u32;
    if s.replay.is_some() {
        let q = s.replay_pc.entry(cur).or_default();
        while let Some(&(p, v)) = q.front() {
            if p < pc {
                q.pop_front();
                continue;
            }
            if p == pc {
                pick = v;
                q.pop_front();
            }
            break;
        }
        let nx = q.front().map(|x| x.0).unwrap_or(u64::MAX);
        TLS.with(|t| t.next_pc.set(nx));
    } else {
        let m = s.cfg.pc_mean;
        let d = 1 + s.rng.below(2 * m);
        TLS.with(|t| t.next_pc.set(pc + d));
        pick = 1 + s.rng.below(64) as u32;
    }
    if pick == 0 {
        return;
    }
    s.now += 1_000;
    s.steps += 1;
    fire_timers(s);
    let v = runnable_others(s);
    if v.is_empty() {
        return;
    }
    s.injected[K::Pc as usize] += 1;
    record(K::Pc, cur, pc, pick);
    let n = v[(pick as usize - 1) % v.len()];
    s.mix(pc);
    switch(n);
}

pub fn block(key: Key, deadline: u64) -> Wake {
    let _g = Rt::enter();
    let s = sim();
    step(s);
    let me = s.cur;
    {
        let t = &mut s.tasks[me as usize];
        t.state = St::Blocked;
        t.key = key;
        t.deadline = deadline;
    }
    s.min_deadline = s.min_deadline.min(deadline);
    let n = pick_forced();
    if n != me {
        switch(n);
    }
    sim().tasks[me as usize].wake
}

pub fn wake(key: Key, n: usize) -> usize {
    let s = sim();
    let mut v: Vec<usize> = Vec::new();
    for (i, t) in s.tasks.iter().enumerate() {
        if t.state == St::Blocked && t.key == key {
            v.push(i);
        }
    }
    v.sort_by_key(|&i| s.tasks[i].seq);
    let mut c = 0;
    for i in v {
        if c >= n {
            break;
        }
        s.seq += 1;
        let q = s.seq;
        let t = &mut s.tasks[i];
        t.state = St::Runnable;
        t.wake = Wake::Woken;
        t.key = Key::None;
        t.deadline = u64::MAX;
        t.seq = q;
        c += 1;
    }
    c
}

pub fn new_task(proc: u32, name: String) -> u32 {
    let s = sim();
    let id = s.tasks.len() as u32;
    s.seq += 1;
    let prio = if s.cfg.strategy == Strategy::Pct { s.rng.below(1 << 30) as i64 } else { 0 };
    s.tasks.push(Task {
        proc,
        name,
        state: St::Runnable,
        word: Box::leak(Box::new(AtomicU32::new(0))),
        key: Key::None,
        deadline: u64::MAX,
        wake: Wake::Woken,
        seq: s.seq,
        prio,
        counters: [0; NK],
        dtors: Vec::new(),
        pthread: 0,
    });
    id
}

/// Body of the pthread trampoline: wait for the baton as task `id`, run, leave.
pub unsafe fn task_main(id: u32, word: &'static AtomicU32, f: impl FnOnce() -> usize) -> usize {
    wait_word(word);
    TLS.with(|t| {
        t.task.set(id);
        t.pc.set(0);
        let s = sim();
        let nx = if s.replay.is_some() {
            s.replay_pc.get(&id).and_then(|q| q.front().map(|x| x.0)).unwrap_or(u64::MAX)
        } else if s.cfg.pc_mean > 0 {
            1 + s.rng.below(2 * s.cfg.pc_mean)
        } else {
            u64::MAX
        };
        t.next_pc.set(nx);
    });
    let r = f();
    // thread-local destructors run under the simulator too
    loop {
        let d = {
            let _g = Rt::enter();
            sim().tasks[id as usize].dtors.pop()
        };
        match d {
            Some((f, o)) => f(o as *mut u8),
            None => break,
        }
    }
    let _g = Rt::enter();
    let s = sim();
    s.tasks[id as usize].state = St::Done;
    wake(Key::Join(id), usize::MAX);
    TLS.with(|t| t.next_pc.set(u64::MAX));
    if s.done {
        park_forever();
    }
    let n = pick_forced();
    sim().mix(0xdead ^ (n as u64) << 8);
    TLS.with(|t| t.task.set(NOTASK));
    hand_to(n);
    r
}

/// Kill every task of a simulated process at once (SIGKILL / power loss). If the current task is
/// among them this never returns.
pub fn kill_proc_tasks(proc: u32) {
    let _g = Rt::enter();
    let s = sim();
    let mut me_dead = false;
    for (i, t) in s.tasks.iter_mut().enumerate() {
        if t.proc == proc && t.state != St::Done {
            t.state = St::Dead;
            if i as u32 == s.cur {
                me_dead = true;
            }
        }
    }
    if me_dead {
        let n = pick_forced();
        hand_to(n);
        park_forever();
    }
}

pub fn verdict(kind: &str, msg: String) -> ! {
    let _g = Rt::enter();
    let s = sim();
    if s.verdict.is_none() {
        let kind = if kind != "harness" && notify_deadlock() { "notify-deadlock" } else { kind };
        s.verdict = Some((kind.to_string(), msg.clone()));
        log(format!("VERDICT {}: {}", kind, msg));
        if s.cfg.trace {
            let now = s.now;
            for (i, t) in s.tasks.iter().enumerate() {
                if t.state != St::Done {
                    let d = if t.deadline == u64::MAX { "-".into() } else { format!("{}", t.deadline as i64 - now as i64) };
                    s.log.push(format!("    t{} p{} {} {:?} {:?} deadline {} seq {} prio {}", i, t.proc, t.name, t.state, t.key, d, t.seq, t.prio));
                }
            }
        }
    }
    finish()
}
pub fn finish() -> ! {
    let _g = Rt::enter();
    sim().done = true;
    FINISH.store(1, Ordering::SeqCst);
    futex_wake_raw(&FINISH);
    park_forever()
}

pub fn log(m: String) {
    let _g = Rt::enter();
    let s = sim();
    let mut h: u64 = 0xcbf29ce484222325;
    for b in m.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    s.mix(h);
    if s.cfg.trace {
        let l = format!("{:>13} s{} t{}({}) {}", s.now, s.steps, s.cur, s.tasks[s.cur as usize].name, m);
        if std::env::var_os("XISIM_LIVE").is_some() {
            eprintln!("{}", l);
        }
        s.log.push(l);
    }
}
/// Record a value in the run's signature without storing text.
pub fn sig(v: u64) {
    sim().mix(v);
}
pub fn note(k: &str, n: u64) {
    let _g = Rt::enter();
    *sim().notes.entry(k.to_string()).or_insert(0) += n;
}
#[macro_export]
macro_rules! slog {
    ($($a:tt)*) => { $crate::rt::log(format!($($a)*)) };
}
#[macro_export]
macro_rules! violation {
    ($k:expr, $($a:tt)*) => { $crate::rt::verdict($k, format!($($a)*)) };
}

pub fn now() -> u64 {
    sim().now
}
pub fn sleep(ns: u64) {
    let d = sim().now + ns;
    block(Key::Sleep, d);
}
pub fn cur_proc() -> u32 {
    let s = sim();
    s.tasks[s.cur as usize].proc
}
/// Spawn a simulated task in process `proc` (a real thread running `f`).
pub fn spawn<F: FnOnce() + Send + 'static>(proc: u32, name: &str, f: F) -> std::thread::JoinHandle<()> {
    sim().next_proc = Some((proc, name.to_string()));
    std::thread::Builder::new().stack_size(4 << 20).spawn(f).unwrap()
}

// ---------------------------------------------------------------- mailbox for harness tasks
pub struct Mailbox<T> {
    id: u64,
    q: std::cell::UnsafeCell<VecDeque<T>>,
}
unsafe impl<T> Sync for Mailbox<T> {}
unsafe impl<T> Send for Mailbox<T> {}
impl<T> Mailbox<T> {
    pub fn new() -> Mailbox<T> {
        let s = sim();
        s.mail_seq += 1;
        Mailbox { id: s.mail_seq, q: std::cell::UnsafeCell::new(VecDeque::new()) }
    }
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<T> {
        unsafe { &mut *self.q.get() }
    }
    pub fn push(&self, t: T) {
        let _g = Rt::enter();
        self.q().push_back(t);
        wake(Key::Mail(self.id), usize::MAX);
    }
    pub fn try_pop(&self) -> Option<T> {
        self.q().pop_front()
    }
    pub fn pop_until(&self, deadline: u64) -> Option<T> {
        let _g = Rt::enter();
        loop {
            if let Some(t) = self.q().pop_front() {
                return Some(t);
            }
            if sim().now >= deadline {
                return None;
            }
            block(Key::Mail(self.id), deadline);
        }
    }
    pub fn len(&self) -> usize {
        self.q().len()
    }
}
/// A cell that harness tasks share; exclusive because only the baton holder runs and accesses are
/// short and free of scheduling points.
pub struct Shared1<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Shared1<T> {}
unsafe impl<T> Send for Shared1<T> {}
impl<T> Shared1<T> {
    pub fn new(t: T) -> Self {
        Shared1(std::cell::UnsafeCell::new(t))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _g = Rt::enter();
        f(unsafe { &mut *self.0.get() })
    }
}
/// Wait until `f` is true, polling every `every` ns of simulated time, until `deadline`.
pub fn wait_for(deadline: u64, every: u64, mut f: impl FnMut() -> bool) -> bool {
    loop {
        if f() {
            return true;
        }
        if now() >= deadline {
            return false;
        }
        sleep(every);
    }
}

/// Liveness: `f` becomes true, at the latest within a bound after faults have stopped. Ordinary runs
/// get there while faults are still being injected.
pub fn eventually(f: impl FnMut() -> bool) -> bool {
    eventually_in(30 * SEC, 5 * MS, f)
}
pub fn eventually_in(faulty: u64, every: u64, mut f: impl FnMut() -> bool) -> bool {
    if wait_for(now() + faulty, every, &mut f) {
        return true;
    }
    let was = sim().faults_on;
    sim().faults_on = false;
    if wait_for(now() + 60 * SEC, 5 * every, &mut f) {
        sim().faults_on = was;
        return true;
    }
    false
}

pub struct Outcome {
    pub verdict: Option<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub sig: u64,
    pub injected: [u64; NK],
    pub log: Vec<String>,
    pub panics: Vec<PanicRec>,
    pub notes: BTreeMap<String, u64>,
}

/// Run `f` as the root task of a fresh simulation. Called once per (forked) process.
pub fn run<F: FnOnce() + Send + 'static>(cfg: Cfg, f: F) -> Outcome {
    let mut rng = Rng::new(cfg.seed);
    let entropy = Rng::new(cfg.seed ^ 0xE117);
    let mut replay = None;
    let mut replay_pc: HashMap<u32, VecDeque<(u64, u32)>> = HashMap::new();
    if let Some(r) = &cfg.replay {
        let mut m = HashMap::new();
        for &(k, t, c, v) in r {
            if k == K::Pc as u8 {
                replay_pc.entry(t).or_default().push_back((c, v));
            } else {
                m.insert((k, t, c), v);
            }
        }
        for q in replay_pc.values_mut() {
            q.make_contiguous().sort();
        }
        replay = Some(m);
    }
    let mut pct_points: Vec<u64> = Vec::new();
    if cfg.strategy == Strategy::Pct {
        let d = rng.range(1, 20);
        let span = *rng.pick(&[500u64, 5_000, 50_000]);
        for _ in 0..d {
            pct_points.push(rng.below(span));
        }
        pct_points.sort();
        pct_points.reverse();
    }
    let s = Box::new(Sim {
        cfg,
        tasks: Vec::new(),
        cur: 0,
        now: 1_000 * SEC,
        real_skew: 0,
        min_deadline: u64::MAX,
        seq: 0,
        steps: 0,
        switches: 0,
        rng,
        entropy,
        replay,
        replay_pc,
        faults_on: true,
        stalled: 0,
        stall_named: false,
        injected: [0; NK],
        sig: 0xcbf29ce484222325,
        log: Vec::new(),
        panics: Vec::new(),
        next_proc: None,
        verdict: None,
        done: false,
        pct_points,
        pct_low: 0,
        mail_seq: 0,
        notes: BTreeMap::new(),
        cur_ctx: String::new(),
        dead_detect: true,
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
    crate::vos::init();
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if cur_task() == NOTASK {
            eprintln!("panic outside the simulation: {} at {}", msg, loc);
            return;
        }
        let _g = Rt::enter();
        let s = sim();
        let (proc, task) = {
            let t = &s.tasks[s.cur as usize];
            (t.proc, t.name.clone())
        };
        log(format!("PANIC p{} {}: {} at {}", proc, task, msg, loc));
        if std::env::var_os("XISIM_BT").is_some() {
            log(format!("{}", std::backtrace::Backtrace::force_capture()));
        }
        s.panics.push(PanicRec { proc, task, msg: msg.clone(), loc: loc.clone() });
        if proc == 0 && loc.starts_with("/repo/") {
            // a harness task calls libraries of the repository directly (C22)
            verdict("panic", format!("panic: {} at {}", msg, loc));
        }
        if proc == 0 {
            verdict("unexpected", format!("the check cannot make sense of what it was sent: {} at {}", msg, loc));
        }
    }));
    crate::interpose::spawn_root(move || {
        f();
        let _g = Rt::enter();
        finish();
    });
    while FINISH.load(Ordering::SeqCst) == 0 {
        futex_wait_raw(&FINISH, 0);
    }
    let s = sim();
    Outcome {
        verdict: s.verdict.clone(),
        steps: s.steps,
        switches: s.switches,
        sim_ns: s.now - 1_000 * SEC,
        sig: s.sig,
        injected: s.injected,
        log: std::mem::take(&mut s.log),
        panics: s.panics.clone(),
        notes: s.notes.clone(),
    }
}
pub fn start_first(id: u32) {
    hand_to(id);
}
