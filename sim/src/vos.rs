//! Virtual operating system: file descriptors, pipes, a file system with a power-loss model,
//! inotify/epoll and processes (each simulated process is a group of simulated tasks).
use crate::rt::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::Arc;

pub const FD_BASE: i32 = 10_000;
pub const EPOCH_NS: u64 = 1_600_000_000 * SEC;

pub struct StatInfo {
    pub ino: u64,
    pub mode: u32,
    pub size: u64,
    pub mtime: u64,
}
#[derive(Clone)]
pub enum Node {
    Dir(BTreeMap<String, u64>),
    File(Vec<u8>),
}
#[derive(Clone)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub mtime: u64,
    /// contents as of the last fsync (None: never synced)
    pub synced: Option<Vec<u8>>,
    pub dirty: bool,
}
#[derive(Clone, Debug)]
pub enum MetaOp {
    Link(u64, String, u64),
    Unlink(u64, String),
    Rename(u64, String, u64, String),
    Mode(u64, u32),
}
pub enum Kind {
    File { ino: u64, pos: u64, flags: i32 },
    Dir,
    PipeR(u32),
    PipeW(u32),
    Epoll(Vec<(i32, u32, u64, u64)>),
    Inotify(Inot),
    Random,
}
pub struct Inot {
    pub watches: BTreeMap<i32, (u64, u32)>,
    pub next_wd: i32,
    pub q: VecDeque<(i32, u32, u32, String)>,
    pub gen: u64,
}
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: u32,
    pub writers: u32,
    pub gen: u64,
    pub written: u64,
    /// harness tap: total bytes ever read
    pub read: u64,
    /// reads and writes of this pipe are exempt from short transfers and EINTR
    pub calm: bool,
}
pub struct Fd {
    pub kind: Kind,
    pub proc: u32,
    pub nonblock: bool,
}
pub struct Proc {
    pub name: String,
    pub parent: u32,
    pub exited: Option<i32>,
    pub stdin: i32,
    pub stdout: i32,
}
pub type Program = Arc<dyn Fn(ProcIo) + Send + Sync>;
pub struct ProcIo {
    pub pid: u32,
    pub instance: u32,
    pub stdin: VFile,
    pub stdout: VFile,
}
pub struct Vos {
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub pipes: HashMap<u32, Pipe>,
    pub next_pipe: u32,
    pub inodes: BTreeMap<u64, Inode>,
    pub next_ino: u64,
    pub journal: Vec<MetaOp>,
    pub durable_dirs: BTreeMap<u64, BTreeMap<String, u64>>,
    pub durable_mode: BTreeMap<u64, u32>,
    pub procs: BTreeMap<u32, Proc>,
    pub next_proc: u32,
    pub programs: HashMap<String, Program>,
    pub spawn_actions: HashMap<usize, Vec<(i32, i32)>>,
    pub cookie: u32,
    /// file-system faults apply to operations of this process under this prefix
    pub fault_proc: u32,
    pub fault_prefix: String,
    pub fs_fault_log: Vec<(u64, String, String, i32)>,
    /// crash points armed for this process
    pub crash_proc: Option<u32>,
    pub crashed: Option<(u64, String)>,
    pub crash_countdown: Option<u64>,
    pub fs_ops: u64,
    pub sync_lies: bool,
    pub last_mtime: u64,
    pub disk_full: bool,
    /// complete reads of files by simulated processes: inode and modification time
    pub fs_reads: Vec<(u64, u64)>,
}
static mut VOS: *mut Vos = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn vos() -> &'static mut Vos {
    unsafe { &mut *VOS }
}
pub fn init() {
    let mut inodes = BTreeMap::new();
    inodes.insert(1, Inode { node: Node::Dir(BTreeMap::new()), mode: libc::S_IFDIR | 0o755, mtime: EPOCH_NS, synced: None, dirty: false });
    let mut dd = BTreeMap::new();
    dd.insert(1, BTreeMap::new());
    let v = Box::new(Vos {
        fds: BTreeMap::new(),
        next_fd: FD_BASE,
        pipes: HashMap::new(),
        next_pipe: 1,
        inodes,
        next_ino: 2,
        journal: Vec::new(),
        durable_dirs: dd,
        durable_mode: BTreeMap::new(),
        procs: BTreeMap::new(),
        next_proc: 10,
        programs: HashMap::new(),
        spawn_actions: HashMap::new(),
        cookie: 1,
        fault_proc: u32::MAX,
        fault_prefix: "/".into(),
        fs_fault_log: Vec::new(),
        crash_proc: None,
        crashed: None,
        crash_countdown: None,
        fs_ops: 0,
        sync_lies: false,
        last_mtime: 0,
        disk_full: false,
        fs_reads: Vec::new(),
    });
    unsafe {
        VOS = Box::into_raw(v);
    }
}
type R = Result<i64, i32>;

fn wallclock() -> u64 {
    let s = sim();
    let v = vos();
    let t = (EPOCH_NS as i64 + s.now as i64 + s.real_skew) as u64;
    // distinct stamps for distinct operations
    let t = if t == v.last_mtime { t + 1 } else { t };
    v.last_mtime = t;
    t
}
fn new_fd(kind: Kind, proc: u32, nonblock: bool) -> i32 {
    let v = vos();
    let fd = v.next_fd;
    v.next_fd += 1;
    v.fds.insert(fd, Fd { kind, proc, nonblock });
    fd
}

// ---------------------------------------------------------------- pipes
pub fn pipe(proc: u32, cap: usize, nonblock: bool) -> (i32, i32) {
    let v = vos();
    let id = v.next_pipe;
    v.next_pipe += 1;
    v.pipes.insert(id, Pipe { buf: VecDeque::new(), cap, readers: 1, writers: 1, gen: 0, written: 0, read: 0, calm: false });
    let r = new_fd(Kind::PipeR(id), proc, nonblock);
    let w = new_fd(Kind::PipeW(id), proc, nonblock);
    (r, w)
}
fn poll_wake() {
    wake(Key::Poll(0), usize::MAX);
}
pub fn set_owner(fd: i32, proc: u32) {
    vos().fds.get_mut(&fd).unwrap().proc = proc;
}
pub fn set_calm(fd: i32) {
    let id = match vos().fds[&fd].kind {
        Kind::PipeR(i) | Kind::PipeW(i) => i,
        _ => return,
    };
    vos().pipes.get_mut(&id).unwrap().calm = true;
}

pub fn read(fd: i32, out: &mut [u8]) -> R {
    yield_point();
    enum W {
        Pipe(u32, bool),
        Other,
    }
    let w = match vos().fds.get(&fd) {
        None => return Err(libc::EBADF),
        Some(f) => match f.kind {
            Kind::PipeR(p) => W::Pipe(p, f.nonblock),
            _ => W::Other,
        },
    };
    match w {
        W::Pipe(p, nb) => loop {
            if !vos().fds.contains_key(&fd) {
                return Err(libc::EBADF);
            }
            let pp = vos().pipes.get_mut(&p).unwrap();
            if !pp.calm && !nb && fault(K::Eintr, 2) != 0 {
                return Err(libc::EINTR);
            }
            let pp2 = vos().pipes.get_mut(&p).unwrap();
            if !pp2.buf.is_empty() {
                let mut n = pp2.buf.len().min(out.len());
                if n > 1 && !pp2.calm {
                    let d = fault(K::ShortRead, 4);
                    n = match d {
                        0 => n,
                        1 => 1,
                        2 => (n + 1) / 2,
                        _ => n - 1,
                    };
                }
                let pp = vos().pipes.get_mut(&p).unwrap();
                for b in out.iter_mut().take(n) {
                    *b = pp.buf.pop_front().unwrap();
                }
                pp.read += n as u64;
                wake(Key::Pipe(p), usize::MAX);
                poll_wake();
                return Ok(n as i64);
            }
            if pp.writers == 0 {
                return Ok(0);
            }
            if nb {
                return Err(libc::EAGAIN);
            }
            block(Key::Pipe(p), u64::MAX);
        },
        W::Other => {}
    }
    let f = vos().fds.get_mut(&fd).unwrap();
    match &mut f.kind {
        Kind::File { ino, pos, .. } => {
            let ino = *ino;
            let p = *pos as usize;
            if let Some(e) = fs_fault("read", "", &[libc::EIO]) {
                return Err(e);
            }
            let n = match &vos().inodes[&ino].node {
                Node::File(d) => {
                    if p >= d.len() {
                        0
                    } else {
                        let mut n = out.len().min(d.len() - p);
                        if n > 1 {
                            n = match fault(K::ShortRead, 3) {
                                0 => n,
                                1 => 1 + n / 3,
                                _ => (n + 1) / 2,
                            };
                        }
                        out[..n].copy_from_slice(&d[p..p + n]);
                        n
                    }
                }
                _ => return Err(libc::EISDIR),
            };
            if n == 0 && !out.is_empty() && cur_proc() != 0 {
                let m = vos().inodes[&ino].mtime;
                vos().fs_reads.push((ino, m));
            }
            if let Kind::File { pos, .. } = &mut vos().fds.get_mut(&fd).unwrap().kind {
                *pos += n as u64;
            }
            Ok(n as i64)
        }
        Kind::Inotify(i) => {
            if i.q.is_empty() {
                return Err(libc::EAGAIN);
            }
            let mut o = 0;
            while let Some((wd, mask, cookie, name)) = i.q.front() {
                let nl = if name.is_empty() { 0 } else { (name.len() + 1 + 15) / 16 * 16 };
                let sz = 16 + nl;
                if o + sz > out.len() {
                    break;
                }
                out[o..o + 4].copy_from_slice(&wd.to_ne_bytes());
                out[o + 4..o + 8].copy_from_slice(&mask.to_ne_bytes());
                out[o + 8..o + 12].copy_from_slice(&cookie.to_ne_bytes());
                out[o + 12..o + 16].copy_from_slice(&(nl as u32).to_ne_bytes());
                for b in &mut out[o + 16..o + sz] {
                    *b = 0;
                }
                out[o + 16..o + 16 + name.len()].copy_from_slice(name.as_bytes());
                o += sz;
                i.q.pop_front();
            }
            if o == 0 {
                return Err(libc::EINVAL);
            }
            Ok(o as i64)
        }
        Kind::Random => {
            for b in out.iter_mut() {
                *b = sim().entropy.next() as u8;
            }
            Ok(out.len() as i64)
        }
        _ => Err(libc::EINVAL),
    }
}

pub fn write(fd: i32, data: &[u8]) -> R {
    yield_point();
    let (p, nb) = match vos().fds.get(&fd) {
        None => return Err(libc::EBADF),
        Some(f) => match f.kind {
            Kind::PipeW(p) => (p, f.nonblock),
            Kind::File { ino, .. } => return write_file(fd, ino, data),
            _ => return Err(libc::EBADF),
        },
    };
    if data.is_empty() {
        return Ok(0);
    }
    loop {
        if !vos().fds.contains_key(&fd) {
            return Err(libc::EBADF);
        }
        let calm = vos().pipes[&p].calm;
        if !calm && !nb && fault(K::Eintr, 2) != 0 {
            return Err(libc::EINTR);
        }
        let mut n = data.len();
        if n > 1 && !calm {
            n = match fault(K::ShortWrite, 4) {
                0 => n,
                1 => 1,
                2 => (n + 1) / 2,
                _ => n - 1,
            };
        }
        let pp = vos().pipes.get_mut(&p).unwrap();
        if pp.readers == 0 {
            return Err(libc::EPIPE);
        }
        let space = pp.cap.saturating_sub(pp.buf.len());
        if space > 0 {
            let n = n.min(space);
            pp.buf.extend(&data[..n]);
            pp.written += n as u64;
            pp.gen += 1;
            wake(Key::Pipe(p), usize::MAX);
            poll_wake();
            yield_point();
            return Ok(n as i64);
        }
        if nb {
            return Err(libc::EAGAIN);
        }
        block(Key::Pipe(p), u64::MAX);
    }
}

pub fn close(fd: i32) -> R {
    let v = vos();
    let f = match v.fds.remove(&fd) {
        None => return Err(libc::EBADF),
        Some(f) => f,
    };
    match f.kind {
        Kind::PipeR(p) => {
            v.pipes.get_mut(&p).unwrap().readers -= 1;
            wake(Key::Pipe(p), usize::MAX);
            poll_wake();
        }
        Kind::PipeW(p) => {
            let pp = v.pipes.get_mut(&p).unwrap();
            pp.writers -= 1;
            pp.gen += 1;
            wake(Key::Pipe(p), usize::MAX);
            poll_wake();
        }
        Kind::File { ino, flags, .. } => {
            if flags & libc::O_ACCMODE != libc::O_RDONLY {
                notify_ino(ino, libc::IN_CLOSE_WRITE);
                yield_point();
            }
        }
        Kind::Inotify(_) | Kind::Epoll(_) => poll_wake(),
        _ => {}
    }
    Ok(0)
}
pub fn fcntl(fd: i32, cmd: i32, arg: usize) -> R {
    match cmd {
        libc::F_GETFL => Ok(if vos().fds.get(&fd).ok_or(libc::EBADF)?.nonblock { libc::O_NONBLOCK as i64 } else { 0 }),
        libc::F_SETFL => set_nonblock(fd, arg as i32 & libc::O_NONBLOCK != 0),
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let f = vos().fds.get(&fd).ok_or(libc::EBADF)?;
            let (proc, nb) = (f.proc, f.nonblock);
            let k = match &f.kind {
                Kind::PipeR(p) => {
                    vos().pipes.get_mut(p).unwrap().readers += 1;
                    Kind::PipeR(*p)
                }
                Kind::PipeW(p) => {
                    vos().pipes.get_mut(p).unwrap().writers += 1;
                    Kind::PipeW(*p)
                }
                _ => return Err(libc::EINVAL),
            };
            Ok(new_fd(k, proc, nb) as i64)
        }
        _ => Ok(0),
    }
}
pub fn set_nonblock(fd: i32, on: bool) -> R {
    vos().fds.get_mut(&fd).ok_or(libc::EBADF)?.nonblock = on;
    Ok(0)
}

// ---------------------------------------------------------------- epoll / inotify
pub fn epoll_create(proc: u32) -> i32 {
    new_fd(Kind::Epoll(Vec::new()), proc, false)
}
pub fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: u32, data: u64) -> R {
    let f = vos().fds.get_mut(&ep).ok_or(libc::EBADF)?;
    if let Kind::Epoll(l) = &mut f.kind {
        match op {
            libc::EPOLL_CTL_ADD => l.push((fd, ev, data, u64::MAX)),
            libc::EPOLL_CTL_MOD => {
                for x in l.iter_mut() {
                    if x.0 == fd {
                        *x = (fd, ev, data, u64::MAX);
                    }
                }
            }
            _ => l.retain(|x| x.0 != fd),
        }
        Ok(0)
    } else {
        Err(libc::EINVAL)
    }
}
fn readiness(fd: i32) -> (u32, u64) {
    let v = vos();
    match v.fds.get(&fd).map(|f| &f.kind) {
        Some(Kind::PipeR(p)) => {
            let pp = &v.pipes[p];
            let mut e = 0;
            if !pp.buf.is_empty() {
                e |= libc::EPOLLIN as u32;
            }
            if pp.writers == 0 {
                e |= libc::EPOLLHUP as u32;
            }
            (e, pp.gen)
        }
        Some(Kind::Inotify(i)) => (if i.q.is_empty() { 0 } else { libc::EPOLLIN as u32 }, i.gen),
        _ => (0, 0),
    }
}
pub fn epoll_wait(ep: i32, max: usize, tmo: i32) -> Result<Vec<(u32, u64)>, i32> {
    yield_point();
    let deadline = if tmo < 0 { u64::MAX } else { sim().now + tmo as u64 * MS };
    loop {
        let mut l = match &mut vos().fds.get_mut(&ep).ok_or(libc::EBADF)?.kind {
            Kind::Epoll(l) => std::mem::take(l),
            _ => return Err(libc::EINVAL),
        };
        let mut out = Vec::new();
        for x in l.iter_mut() {
            let (r, gen) = readiness(x.0);
            let e = r & (x.1 | libc::EPOLLHUP as u32 | libc::EPOLLERR as u32);
            if e != 0 {
                if x.1 & libc::EPOLLET as u32 != 0 && x.3 == gen {
                    continue;
                }
                x.3 = gen;
                if out.len() < max {
                    out.push((e, x.2));
                }
            }
        }
        if let Some(f) = vos().fds.get_mut(&ep) {
            f.kind = Kind::Epoll(l);
        }
        if !out.is_empty() || sim().now >= deadline {
            return Ok(out);
        }
        block(Key::Poll(0), deadline);
    }
}
pub fn inotify_init(proc: u32, nb: bool) -> i32 {
    new_fd(Kind::Inotify(Inot { watches: BTreeMap::new(), next_wd: 1, q: VecDeque::new(), gen: 0 }), proc, nb)
}
pub fn inotify_add(fd: i32, path: &str, mask: u32) -> R {
    let (ino, _) = lookup(path)?;
    if sim().cfg.trace {
        log(format!("inotify watches {}", path));
    }
    let f = vos().fds.get_mut(&fd).ok_or(libc::EBADF)?;
    if let Kind::Inotify(i) = &mut f.kind {
        for (wd, w) in i.watches.iter_mut() {
            if w.0 == ino {
                if mask & 0x2000_0000 != 0 {
                    w.1 |= mask;
                } else {
                    w.1 = mask;
                }
                return Ok(*wd as i64);
            }
        }
        let wd = i.next_wd;
        i.next_wd += 1;
        i.watches.insert(wd, (ino, mask));
        Ok(wd as i64)
    } else {
        Err(libc::EINVAL)
    }
}
pub fn inotify_rm(fd: i32, wd: i32) -> R {
    let f = vos().fds.get_mut(&fd).ok_or(libc::EBADF)?;
    if let Kind::Inotify(i) = &mut f.kind {
        if i.watches.remove(&wd).is_none() {
            return Err(libc::EINVAL);
        }
        if sim().cfg.trace {
            log(format!("inotify drops {}", wd));
        }
        i.q.push_back((wd, libc::IN_IGNORED, 0, String::new()));
        i.gen += 1;
        poll_wake();
        Ok(0)
    } else {
        Err(libc::EINVAL)
    }
}
fn post(ino: u64, mask: u32, cookie: u32, name: &str) {
    let mut any = false;
    for f in vos().fds.values_mut() {
        if let Kind::Inotify(i) = &mut f.kind {
            let hit: Vec<(i32, u32)> = i.watches.iter().filter(|(_, w)| w.0 == ino).map(|(k, w)| (*k, w.1)).collect();
            for (wd, m) in hit {
                if m & mask != 0 || mask & libc::IN_IGNORED != 0 {
                    // identical consecutive events coalesce, as in the kernel
                    let isdir = mask & libc::IN_ISDIR;
                    let ev = (wd, (mask & m & 0xfff) | isdir | (mask & libc::IN_IGNORED), cookie, name.to_string());
                    if i.q.back() != Some(&ev) {
                        i.q.push_back(ev);
                        i.gen += 1;
                    }
                    any = true;
                    if sim().cfg.trace {
                        log(format!("inotify {} {:x} {}", wd, mask, name));
                    }
                }
                if mask & libc::IN_IGNORED != 0 {
                    i.watches.remove(&wd);
                }
            }
        }
    }
    if any {
        poll_wake();
    }
}
fn parents_of(ino: u64) -> Vec<(u64, String)> {
    let mut v = Vec::new();
    for (d, n) in vos().inodes.iter() {
        if let Node::Dir(m) = &n.node {
            for (name, i) in m {
                if *i == ino {
                    v.push((*d, name.clone()));
                }
            }
        }
    }
    v
}
fn notify_ino(ino: u64, mask: u32) {
    for (d, name) in parents_of(ino) {
        post(d, mask, 0, &name);
    }
    post(ino, mask, 0, "");
}

// ---------------------------------------------------------------- file system
fn comps(path: &str) -> Vec<&str> {
    let mut v: Vec<&str> = Vec::new();
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v
}
fn lookup(path: &str) -> Result<(u64, u64), i32> {
    let mut ino = 1;
    let mut par = 1;
    for c in comps(path) {
        par = ino;
        match &vos().inodes[&ino].node {
            Node::Dir(m) => match m.get(c) {
                Some(i) => ino = *i,
                None => return Err(libc::ENOENT),
            },
            _ => return Err(libc::ENOTDIR),
        }
    }
    Ok((ino, par))
}
fn parent(path: &str) -> Result<(u64, String), i32> {
    let c = comps(path);
    if c.is_empty() {
        return Err(libc::EEXIST);
    }
    let dir = c[..c.len() - 1].join("/");
    let (d, _) = lookup(&dir)?;
    match &vos().inodes[&d].node {
        Node::Dir(_) => Ok((d, c[c.len() - 1].to_string())),
        _ => Err(libc::ENOTDIR),
    }
}
fn dir(ino: u64) -> &'static mut BTreeMap<String, u64> {
    match &mut vos().inodes.get_mut(&ino).unwrap().node {
        Node::Dir(m) => m,
        _ => unreachable!(),
    }
}
/// Called at every file-system operation of a simulated process: crash point and error injection.
fn fs_point(op: &str, path: &str) {
    yield_point();
    let v = vos();
    if cur_proc() == 0 {
        return;
    }
    v.fs_ops += 1;
    if v.crash_proc == Some(cur_proc()) && v.crashed.is_none() && (path == "/" || path.starts_with(&v.fault_prefix)) && fault(K::Crash, 2) != 0 {
        crash_now(&format!("{} {}", op, path));
    }
}
pub fn crash_now(at: &str) {
    let v = vos();
    v.crashed = Some((sim().now, at.to_string()));
    log(format!("CRASH at {}", at));
    let procs: Vec<u32> = std::iter::once(v.crash_proc.unwrap_or(1)).chain(v.procs.keys().copied()).collect();
    wake(Key::Proc(0xffff), usize::MAX);
    let me = cur_proc();
    for p in &procs {
        close_all(*p);
        if let Some(x) = v.procs.get_mut(p) {
            x.exited = Some(9);
        }
    }
    for p in &procs {
        if *p != me {
            kill_proc_tasks(*p);
        }
    }
    if procs.contains(&me) {
        kill_proc_tasks(me);
    }
}
fn fs_fault(op: &str, path: &str, errs: &[i32]) -> Option<i32> {
    let v = vos();
    if cur_proc() != v.fault_proc {
        return None;
    }
    if !path.is_empty() && !path.starts_with(&v.fault_prefix) {
        return None;
    }
    let d = fault(K::FsErr, errs.len() as u32 + 1);
    if d == 0 {
        return None;
    }
    let e = errs[d as usize - 1];
    log(format!("FSERR {} {} errno {}", op, path, e));
    v.fs_fault_log.push((sim().now, op.to_string(), path.to_string(), e));
    Some(e)
}
pub fn open(path: &str, flags: i32, mode: u32) -> R {
    if path == "/dev/urandom" || path == "/dev/random" {
        return Ok(new_fd(Kind::Random, cur_proc(), false) as i64);
    }
    fs_point("open", path);
    let acc = flags & libc::O_ACCMODE;
    if flags & libc::O_CREAT != 0 {
        if let Some(e) = fs_fault("open", path, &[libc::EACCES, libc::ENOSPC, libc::EIO, libc::EMFILE]) {
            return Err(e);
        }
    } else if let Some(e) = fs_fault("open", path, &[libc::EACCES, libc::EIO, libc::EMFILE]) {
        return Err(e);
    }
    let ino = match lookup(path) {
        Ok((i, _)) => {
            if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                return Err(libc::EEXIST);
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            let (d, name) = parent(path)?;
            let v = vos();
            let ino = v.next_ino;
            v.next_ino += 1;
            let m = mode & 0o7777 & !0o022;
            v.inodes.insert(ino, Inode { node: Node::File(Vec::new()), mode: libc::S_IFREG | m, mtime: wallclock(), synced: None, dirty: true });
            dir(d).insert(name.clone(), ino);
            v.journal.push(MetaOp::Link(d, name.clone(), ino));
            v.durable_mode.insert(ino, libc::S_IFREG | m);
            post(d, libc::IN_CREATE, 0, &name);
            ino
        }
        Err(e) => return Err(e),
    };
    let i = vos().inodes.get_mut(&ino).unwrap();
    match &mut i.node {
        Node::Dir(_) => {
            if acc != libc::O_RDONLY {
                return Err(libc::EISDIR);
            }
            return Ok(new_fd(Kind::Dir, cur_proc(), false) as i64);
        }
        Node::File(d) => {
            if acc != libc::O_WRONLY && i.mode & 0o400 == 0 {
                return Err(libc::EACCES);
            }
            if acc != libc::O_RDONLY && i.mode & 0o200 == 0 {
                return Err(libc::EACCES);
            }
            if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY && !d.is_empty() {
                d.clear();
                i.dirty = true;
                i.mtime = wallclock();
                notify_ino(ino, libc::IN_MODIFY);
            }
        }
    }
    let fd = new_fd(Kind::File { ino, pos: 0, flags }, cur_proc(), false);
    Ok(fd as i64)
}
fn write_file(fd: i32, ino: u64, data: &[u8]) -> R {
    fs_point("write", "/");
    let mut n = data.len();
    if vos().disk_full && cur_proc() != 0 {
        return Err(libc::ENOSPC);
    }
    if n > 1 && cur_proc() != 0 && fault(K::ShortWrite, 2) != 0 {
        n = (n + 1) / 2;
    }
    if let Some(e) = fs_fault("write", "", &[libc::ENOSPC, libc::EIO, -1, -2]) {
        match e {
            -1 => n = (n + 1) / 2, // short write, then whatever comes next
            -2 => {
                // disk fills up in the middle of the data
                n = n / 2;
                vos().disk_full = true;
                if n == 0 {
                    return Err(libc::ENOSPC);
                }
            }
            e => return Err(e),
        }
    }
    let i = vos().inodes.get_mut(&ino).unwrap();
    let (pos, append) = match vos().fds[&fd].kind {
        Kind::File { pos, flags, .. } => (pos as usize, flags & libc::O_APPEND != 0),
        _ => return Err(libc::EBADF),
    };
    let end = if let Node::File(d) = &mut i.node {
        let pos = if append { d.len() } else { pos };
        if d.len() < pos + n {
            d.resize(pos + n, 0);
        }
        d[pos..pos + n].copy_from_slice(&data[..n]);
        pos + n
    } else {
        return Err(libc::EISDIR);
    };
    i.dirty = true;
    i.mtime = wallclock();
    if let Kind::File { pos, .. } = &mut vos().fds.get_mut(&fd).unwrap().kind {
        *pos = end as u64;
    }
    notify_ino(ino, libc::IN_MODIFY);
    Ok(n as i64)
}
pub fn lseek(fd: i32, off: i64, wh: i32) -> R {
    let len = match &vos().fds.get(&fd).ok_or(libc::EBADF)?.kind {
        Kind::File { ino, .. } => match &vos().inodes[ino].node {
            Node::File(d) => d.len() as i64,
            _ => 0,
        },
        _ => return Err(libc::ESPIPE),
    };
    if let Kind::File { pos, .. } = &mut vos().fds.get_mut(&fd).unwrap().kind {
        let b = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => *pos as i64,
            _ => len,
        };
        *pos = (b + off).max(0) as u64;
        return Ok(*pos as i64);
    }
    Err(libc::ESPIPE)
}
pub fn fsync(fd: i32) -> R {
    fs_point("fsync", "/");
    let ino = match vos().fds.get(&fd).ok_or(libc::EBADF)?.kind {
        Kind::File { ino, .. } => ino,
        Kind::Dir => {
            if let Some(e) = fs_fault("fsync dir", "", &[libc::EIO]) {
                return Err(e);
            }
            if !vos().sync_lies {
                let j = std::mem::take(&mut vos().journal);
                replay_journal(&j);
            }
            return Ok(0);
        }
        _ => return Ok(0),
    };
    if let Some(e) = fs_fault("fsync", "", &[libc::EIO, libc::ENOSPC]) {
        return Err(e);
    }
    if vos().sync_lies {
        return Ok(0);
    }
    let i = vos().inodes.get_mut(&ino).unwrap();
    if let Node::File(d) = &i.node {
        i.synced = Some(d.clone());
    }
    i.dirty = false;
    let m = i.mode;
    vos().durable_mode.insert(ino, m);
    vos().journal.retain(|o| !matches!(o, MetaOp::Mode(i, _) if *i == ino));
    Ok(0)
}
pub fn ftruncate(fd: i32, len: u64) -> R {
    fs_point("ftruncate", "/");
    let ino = match vos().fds.get(&fd).ok_or(libc::EBADF)?.kind {
        Kind::File { ino, .. } => ino,
        _ => return Err(libc::EINVAL),
    };
    if let Node::File(d) = &mut vos().inodes.get_mut(&ino).unwrap().node {
        d.resize(len as usize, 0);
    }
    vos().inodes.get_mut(&ino).unwrap().dirty = true;
    notify_ino(ino, libc::IN_MODIFY);
    Ok(0)
}
fn info(ino: u64) -> StatInfo {
    let i = &vos().inodes[&ino];
    StatInfo { ino, mode: i.mode, size: if let Node::File(d) = &i.node { d.len() as u64 } else { 4096 }, mtime: i.mtime }
}
pub fn fstat(fd: i32) -> Result<StatInfo, i32> {
    match vos().fds.get(&fd).ok_or(libc::EBADF)?.kind {
        Kind::File { ino, .. } => Ok(info(ino)),
        Kind::Dir => Ok(info(1)),
        _ => Ok(StatInfo { ino: 0, mode: libc::S_IFIFO | 0o600, size: 0, mtime: EPOCH_NS }),
    }
}
pub fn stat(path: &str) -> Result<StatInfo, i32> {
    fs_point("stat", path);
    if let Some(e) = fs_fault("stat", path, &[libc::EIO]) {
        return Err(e);
    }
    lookup(path).map(|(i, _)| info(i))
}
pub fn stat_at(_dfd: i32, path: &str) -> Result<StatInfo, i32> {
    stat(path)
}
pub fn rename(a: &str, b: &str) -> R {
    fs_point("rename", b);
    if let Some(e) = fs_fault("rename", b, &[libc::EIO, libc::EACCES, libc::ENOSPC]) {
        return Err(e);
    }
    let (ino, _) = lookup(a)?;
    let (d1, n1) = parent(a)?;
    let (d2, n2) = parent(b)?;
    let old = dir(d2).get(&n2).copied();
    if let Some(o) = old {
        if o == ino {
            return Ok(0);
        }
        if let Node::Dir(_) = vos().inodes[&o].node {
            return Err(libc::EISDIR);
        }
    }
    dir(d1).remove(&n1);
    dir(d2).insert(n2.clone(), ino);
    let v = vos();
    v.journal.push(MetaOp::Rename(d1, n1.clone(), d2, n2.clone()));
    v.cookie += 1;
    let c = v.cookie;
    post(d1, libc::IN_MOVED_FROM, c, &n1);
    post(d2, libc::IN_MOVED_TO, c, &n2);
    post(ino, libc::IN_MOVE_SELF, 0, "");
    if let Some(o) = old {
        post(o, libc::IN_ATTRIB, 0, "");
        post(o, libc::IN_DELETE_SELF, 0, "");
        post(o, libc::IN_IGNORED, 0, "");
    }
    yield_point();
    Ok(0)
}
pub fn unlink(a: &str) -> R {
    fs_point("unlink", a);
    let (ino, _) = lookup(a)?;
    let (d, n) = parent(a)?;
    if let Node::Dir(_) = vos().inodes[&ino].node {
        return Err(libc::EISDIR);
    }
    dir(d).remove(&n);
    vos().journal.push(MetaOp::Unlink(d, n.clone()));
    post(ino, libc::IN_ATTRIB, 0, "");
    post(ino, libc::IN_DELETE_SELF, 0, "");
    post(d, libc::IN_DELETE, 0, &n);
    post(ino, libc::IN_IGNORED, 0, "");
    yield_point();
    Ok(0)
}
pub fn mkdir(a: &str) -> R {
    fs_point("mkdir", a);
    if lookup(a).is_ok() {
        return Err(libc::EEXIST);
    }
    let (d, n) = parent(a)?;
    let v = vos();
    let ino = v.next_ino;
    v.next_ino += 1;
    v.inodes.insert(ino, Inode { node: Node::Dir(BTreeMap::new()), mode: libc::S_IFDIR | 0o755, mtime: wallclock(), synced: None, dirty: false });
    v.durable_dirs.insert(ino, BTreeMap::new());
    dir(d).insert(n.clone(), ino);
    v.journal.push(MetaOp::Link(d, n.clone(), ino));
    post(d, libc::IN_CREATE | libc::IN_ISDIR, 0, &n);
    Ok(0)
}
pub fn chmod(a: &str, m: u32) -> R {
    fs_point("chmod", a);
    if let Some(e) = fs_fault("chmod", a, &[libc::EPERM]) {
        return Err(e);
    }
    let (ino, _) = lookup(a)?;
    set_mode(ino, m)
}
fn set_mode(ino: u64, m: u32) -> R {
    let i = vos().inodes.get_mut(&ino).unwrap();
    i.mode = (i.mode & libc::S_IFMT) | (m & 0o7777);
    let full = i.mode;
    vos().journal.push(MetaOp::Mode(ino, full));
    notify_ino(ino, libc::IN_ATTRIB);
    Ok(0)
}
pub fn fchmod(fd: i32, m: u32) -> R {
    fs_point("fchmod", "/");
    if let Some(e) = fs_fault("fchmod", "", &[libc::EPERM]) {
        return Err(e);
    }
    match vos().fds.get(&fd).ok_or(libc::EBADF)?.kind {
        Kind::File { ino, .. } => set_mode(ino, m),
        _ => Ok(0),
    }
}
pub fn realpath(p: &str) -> Result<String, i32> {
    fs_point("realpath", p);
    lookup(p)?;
    Ok(format!("/{}", comps(p).join("/")))
}
pub fn list_dir(p: &str) -> Result<Vec<(String, u64, bool)>, i32> {
    fs_point("opendir", p);
    let (ino, _) = lookup(p)?;
    match &vos().inodes[&ino].node {
        Node::Dir(m) => Ok(m
            .iter()
            .map(|(n, i)| (n.clone(), *i, matches!(vos().inodes[i].node, Node::Dir(_))))
            .collect()),
        _ => Err(libc::ENOTDIR),
    }
}

// ---------------------------------------------------------------- harness-side file access
pub fn h_mkdirs(p: &str) {
    let _g = Rt::enter();
    let mut cur = String::new();
    for c in comps(p) {
        cur.push('/');
        cur.push_str(c);
        let _ = mkdir(&cur);
    }
}
pub fn h_write(p: &str, data: &[u8]) {
    let _g = Rt::enter();
    let fd = open(p, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644).unwrap() as i32;
    write_file_all(fd, data);
    let _ = close(fd);
}
fn write_file_all(fd: i32, data: &[u8]) {
    if !data.is_empty() {
        if let Kind::File { ino, .. } = vos().fds[&fd].kind {
            write_file(fd, ino, data).unwrap();
        }
    }
}
/// Replace a file the way careful programs do: write a temporary file, rename it over.
pub fn h_replace(p: &str, data: &[u8]) {
    let _g = Rt::enter();
    let t = format!("{}.ext~", p);
    h_write(&t, data);
    rename(&t, p).unwrap();
}
pub fn h_remove(p: &str) {
    let _g = Rt::enter();
    let _ = unlink(p);
}
pub fn h_rename(a: &str, b: &str) {
    let _g = Rt::enter();
    let _ = rename(a, b);
}
pub fn h_ino(p: &str) -> Option<u64> {
    lookup(p).ok().map(|x| x.0)
}
pub fn h_read(p: &str) -> Option<Vec<u8>> {
    let _g = Rt::enter();
    let (ino, _) = lookup(p).ok()?;
    match &vos().inodes[&ino].node {
        Node::File(d) => Some(d.clone()),
        _ => None,
    }
}
pub fn h_mode(p: &str) -> Option<u32> {
    let (ino, _) = lookup(p).ok()?;
    Some(vos().inodes[&ino].mode & 0o7777)
}
pub fn h_chmod(p: &str, m: u32) {
    let _g = Rt::enter();
    let (ino, _) = lookup(p).unwrap();
    let _ = set_mode(ino, m);
}
pub fn h_mtime(p: &str) -> Option<u64> {
    let (ino, _) = lookup(p).ok()?;
    Some(vos().inodes[&ino].mtime)
}
pub fn h_list(p: &str) -> Vec<String> {
    let _g = Rt::enter();
    match lookup(p) {
        Ok((ino, _)) => match &vos().inodes[&ino].node {
            Node::Dir(m) => m.keys().cloned().collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}
/// Everything written so far is on the platter.
pub fn h_sync() {
    let v = vos();
    for i in v.inodes.values_mut() {
        if let Node::File(d) = &i.node {
            i.synced = Some(d.clone());
            i.dirty = false;
        }
    }
    v.journal.clear();
    v.durable_dirs.clear();
    for (k, i) in v.inodes.iter() {
        if let Node::Dir(m) = &i.node {
            v.durable_dirs.insert(*k, m.clone());
        }
        v.durable_mode.insert(*k, i.mode);
    }
}
fn replay_journal(j: &[MetaOp]) {
    let v = vos();
    for op in j {
        match op {
            MetaOp::Link(d, name, i) => {
                v.durable_dirs.entry(*d).or_default().insert(name.clone(), *i);
            }
            MetaOp::Unlink(d, name) => {
                v.durable_dirs.entry(*d).or_default().remove(name);
            }
            MetaOp::Rename(d1, n1, d2, n2) => {
                if let Some(i) = v.durable_dirs.entry(*d1).or_default().remove(n1) {
                    v.durable_dirs.entry(*d2).or_default().insert(n2.clone(), i);
                }
            }
            MetaOp::Mode(i, m) => {
                v.durable_mode.insert(*i, *m);
            }
        }
    }
}
/// Power loss: keep only what is durable, choosing among the states the storage may be in. The
/// metadata journal persists in order up to some point; file data not covered by fsync may be old,
/// truncated, or complete.
pub fn h_power_loss(keep_meta_all: bool) {
    let _g = Rt::enter();
    let v = vos();
    let n = v.journal.len() as u32;
    let drop = if keep_meta_all { 0 } else { decide(K::Persist, n + 1, 500_000) };
    let keep = (n - drop) as usize;
    let j: Vec<MetaOp> = v.journal.drain(..).take(keep).collect();
    replay_journal(&j);
    let v = vos();
    let inos: Vec<u64> = v.inodes.keys().copied().collect();
    for k in inos {
        if let Some(d) = v.durable_dirs.get(&k) {
            v.inodes.get_mut(&k).unwrap().node = Node::Dir(d.clone());
            continue;
        }
        let i = v.inodes.get_mut(&k).unwrap();
        if let Some(m) = v.durable_mode.get(&k) {
            i.mode = *m;
        }
        if i.dirty {
            let full = if let Node::File(d) = &i.node { d.clone() } else { continue };
            let old = i.synced.clone().unwrap_or_default();
            let ch = decide(K::Persist, 5, 700_000);
            let nd = match ch {
                0 => full,
                1 => old,
                2 => full[..full.len() / 2].to_vec(),
                3 => Vec::new(),
                _ => vec![0u8; full.len()],
            };
            log(format!("POWERLOSS inode {} unsynced data -> variant {}", k, ch));
            let i = vos().inodes.get_mut(&k).unwrap();
            i.node = Node::File(nd.clone());
            i.synced = Some(nd);
            i.dirty = false;
        }
    }
    h_sync();
}

// ---------------------------------------------------------------- processes
pub fn register_program(path: &str, f: Program) {
    let _g = Rt::enter();
    vos().programs.insert(path.to_string(), f);
}
pub fn spawn_process(path: &str, actions: usize) -> Result<i32, i32> {
    yield_point();
    let v = vos();
    let norm = format!("/{}", comps(path).join("/"));
    let f = match v.programs.get(&norm).or_else(|| v.programs.get(path)) {
        Some(f) => f.clone(),
        None => return Err(libc::ENOENT),
    };
    let pid = v.next_proc;
    v.next_proc += 1;
    let acts = v.spawn_actions.get(&actions).cloned().unwrap_or_default();
    let mut io = [-1i32; 2];
    for (src, dst) in acts {
        if dst > 1 {
            continue;
        }
        let k = match v.fds.get(&src).map(|f| &f.kind) {
            Some(Kind::PipeR(p)) => {
                v.pipes.get_mut(p).unwrap().readers += 1;
                Kind::PipeR(*p)
            }
            Some(Kind::PipeW(p)) => {
                v.pipes.get_mut(p).unwrap().writers += 1;
                Kind::PipeW(*p)
            }
            _ => continue,
        };
        io[dst as usize] = new_fd(k, pid, false);
    }
    let inst = v.procs.values().filter(|p| p.name == norm).count() as u32;
    v.procs.insert(pid, Proc { name: norm.clone(), parent: cur_proc(), exited: None, stdin: io[0], stdout: io[1] });
    log(format!("spawn process {} {}", pid, norm));
    // creating the task is done with interposition on
    let name = format!("proc{}:{}", pid, norm.rsplit('/').next().unwrap_or(""));
    let pio = ProcIo { pid, instance: inst, stdin: VFile { fd: io[0] }, stdout: VFile { fd: io[1] } };
    let saved = TLS.with(|t| t.in_rt.replace(0));
    let h = spawn(pid, &name, move || {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(pio)));
        let _g = Rt::enter();
        let panicked = std::thread::panicking();
        exit_process(pid, if panicked { 101 << 8 } else { 0 });
    });
    std::mem::forget(h);
    TLS.with(|t| t.in_rt.set(saved));
    Ok(pid as i32)
}
fn close_all(pid: u32) {
    let l: Vec<i32> = vos().fds.iter().filter(|(_, f)| f.proc == pid).map(|(k, _)| *k).collect();
    for fd in l {
        let _ = close_quiet(fd);
    }
}
fn close_quiet(fd: i32) -> R {
    let v = vos();
    if let Some(f) = v.fds.remove(&fd) {
        match f.kind {
            Kind::PipeR(p) => {
                v.pipes.get_mut(&p).unwrap().readers -= 1;
                wake(Key::Pipe(p), usize::MAX);
            }
            Kind::PipeW(p) => {
                let pp = v.pipes.get_mut(&p).unwrap();
                pp.writers -= 1;
                pp.gen += 1;
                wake(Key::Pipe(p), usize::MAX);
            }
            _ => {}
        }
        poll_wake();
    }
    Ok(0)
}
/// Mark a process as exited: its descriptors close and its remaining tasks stop for good.
pub fn exit_process(pid: u32, status: i32) {
    let me = sim().cur;
    if let Some(p) = vos().procs.get_mut(&pid) {
        if p.exited.is_some() {
            return;
        }
        p.exited = Some(status);
    }
    log(format!("process {} exits {}", pid, status));
    close_all(pid);
    for (i, t) in sim().tasks.iter_mut().enumerate() {
        if t.proc == pid && i as u32 != me && t.state != St::Done {
            t.state = St::Dead;
        }
    }
    wake(Key::Proc(pid), usize::MAX);
}
pub fn kill_process(pid: u32, sig: i32) {
    let _g = Rt::enter();
    if vos().procs.get(&pid).map(|p| p.exited.is_some()).unwrap_or(true) {
        return;
    }
    log(format!("KILL process {} sig {}", pid, sig));
    vos().procs.get_mut(&pid).unwrap().exited = Some(sig);
    close_all(pid);
    wake(Key::Proc(pid), usize::MAX);
    kill_proc_tasks(pid);
}
pub fn wait_pid(pid: i32, nohang: bool) -> Result<Option<i32>, i32> {
    loop {
        match vos().procs.get(&(pid as u32)) {
            None => return Err(libc::ECHILD),
            Some(p) => {
                if let Some(s) = p.exited {
                    return Ok(Some(s));
                }
            }
        }
        if nohang {
            return Ok(None);
        }
        block(Key::Proc(pid as u32), u64::MAX);
    }
}

/// A virtual descriptor as a std Read/Write.
pub struct VFile {
    pub fd: i32,
}
unsafe impl Send for VFile {}
impl std::io::Read for VFile {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let _g = Rt::enter();
        read(self.fd, b).map(|n| n as usize).map_err(std::io::Error::from_raw_os_error)
    }
}
impl std::io::Write for VFile {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _g = Rt::enter();
        write(self.fd, b).map(|n| n as usize).map_err(std::io::Error::from_raw_os_error)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Drop for VFile {
    fn drop(&mut self) {
        let _g = Rt::enter();
        let _ = close(self.fd);
    }
}
/// A pipe whose read end belongs to process `r` and write end to process `w`.
pub fn channel(r: u32, w: u32, cap: usize) -> (VFile, VFile) {
    let _g = Rt::enter();
    let (a, b) = pipe(r, cap, false);
    set_owner(b, w);
    (VFile { fd: a }, VFile { fd: b })
}
