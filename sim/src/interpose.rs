//! libc symbols defined in the executable, so that std and every crate in it call the simulator.
//! Outside a simulated task (and inside the runtime itself) each one is the plain system call.
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::rt::*;
use crate::vos;
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t, timespec};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

#[inline]
pub unsafe fn raw_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
/// Result of a virtual operation: Ok(value) or Err(errno).
fn vret(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

// ---------------------------------------------------------------- coverage / preemption callback
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let fire = TLS.with(|t| {
        if t.task.get() == NOTASK || t.in_rt.get() != 0 {
            return false;
        }
        let p = t.pc.get() + 1;
        t.pc.set(p);
        let s = SHARED;
        if !s.is_null() {
            (*s).edges[(*g & 0xffff) as usize] = 1;
        }
        p >= t.next_pc.get()
    });
    if fire {
        pc_fire();
    }
}
// one memory access in code whose shared state is not all behind locks
#[inline(always)]
fn mem_access() {
    let fire = TLS.with(|t| {
        if t.task.get() == NOTASK || t.in_rt.get() != 0 {
            return false;
        }
        let p = t.pc.get() + 1;
        t.pc.set(p);
        p >= t.next_pc.get()
    });
    if fire {
        pc_fire();
    }
}
macro_rules! mem_cb {
    ($($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(_p: *mut u8) { mem_access() } )* };
}
mem_cb!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
static NGUARDS: AtomicU32 = AtomicU32::new(0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            *p = NGUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        }
        p = p.add(1);
    }
}
pub fn n_guards() -> u32 {
    NGUARDS.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    let s = sim();
    s.now += 100;
    let n = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        (vos::EPOCH_NS as i64 + s.now as i64 + s.real_skew) as u64
    } else {
        s.now
    };
    (*ts).tv_sec = (n / SEC) as i64;
    (*ts).tv_nsec = (n % SEC) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return -raw_syscall(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int;
    }
    let _g = Rt::enter();
    let t = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    let d = if flags & libc::TIMER_ABSTIME != 0 { t } else { sim().now + t };
    block(Key::Sleep, d);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int;
    }
    clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    yield_now();
    0
}

// ---------------------------------------------------------------- futex, entropy
unsafe fn futex(uaddr: usize, op: c_int, val: u32, timeout: *const timespec) -> Result<i64, i32> {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            yield_point();
            let w = &*(uaddr as *const AtomicU32);
            if w.load(Ordering::SeqCst) != val {
                return Err(libc::EAGAIN);
            }
            if fault(K::Spurious, 2) != 0 {
                return Ok(0);
            }
            let deadline = if timeout.is_null() {
                u64::MAX
            } else {
                let t = ((*timeout).tv_sec as u64).saturating_mul(SEC).saturating_add((*timeout).tv_nsec as u64);
                if cmd == 0 {
                    sim().now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (t as i64 - vos::EPOCH_NS as i64 - sim().real_skew).max(0) as u64
                } else {
                    t
                }
            };
            match block(Key::Futex(uaddr), deadline) {
                Wake::Woken => Ok(0),
                Wake::Timeout => Err(libc::ETIMEDOUT),
            }
        }
        1 | 10 => {
            let n = wake(Key::Futex(uaddr), val as usize);
            yield_point();
            Ok(n as i64)
        }
        _ => {
            verdict("harness", format!("unsupported futex op {}", cmd));
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !active() {
        return ret(raw_syscall(n, a, b, c, d, e, f)) as c_long;
    }
    let _g = Rt::enter();
    match n {
        libc::SYS_futex => vret(futex(a, b as c_int, c as u32, d as *const timespec)) as c_long,
        libc::SYS_getrandom => {
            fill(a as *mut u8, b);
            b as c_long
        }
        libc::SYS_gettid => (5000 + sim().cur) as c_long,
        _ => {
            verdict("harness", format!("unsupported syscall {}", n));
        }
    }
}
unsafe fn fill(p: *mut u8, n: usize) {
    let s = sim();
    for i in 0..n {
        *p.add(i) = s.entropy.next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: size_t, fl: c_uint) -> ssize_t {
    if !active() {
        return ret(raw_syscall(libc::SYS_getrandom, p as usize, n, fl as usize, 0, 0, 0));
    }
    let _g = Rt::enter();
    fill(p, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if !active() {
        return raw_syscall(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as c_int;
    }
    (5000 + sim().cur) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if !active() {
        return raw_syscall(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int;
    }
    (100 + cur_proc()) as c_int
}

// ---------------------------------------------------------------- threads
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int;
struct Start {
    f: StartFn,
    arg: *mut c_void,
    id: u32,
    word: &'static AtomicU32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        let (f, arg, id, word) = (s.f, s.arg, s.id, s.word);
        drop(s);
        let arg = arg as usize;
        task_main(id, word, move || f(arg as *mut c_void) as usize) as *mut c_void
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    let rf = real!("pthread_create", CreateFn);
    if !active() {
        return rf(t, attr, f, arg);
    }
    let _g = Rt::enter();
    let (proc, name) = match sim().next_proc.take() {
        Some(x) => x,
        None => (cur_proc(), format!("t{}", sim().tasks.len())),
    };
    let id = new_task(proc, name);
    let word = sim().tasks[id as usize].word;
    let b = Box::into_raw(Box::new(Start { f, arg, id, word }));
    let r = rf(t, attr, trampoline, b as *mut c_void);
    if r == 0 {
        sim().tasks[id as usize].pthread = *t as u64;
        yield_point();
    } else {
        sim().tasks[id as usize].state = St::Dead;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    let rf = real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if !active() {
        return rf(t, r);
    }
    let _g = Rt::enter();
    let id = sim().tasks.iter().rposition(|x| x.pthread == t as u64);
    if let Some(id) = id {
        while !matches!(sim().tasks[id].state, St::Done) {
            block(Key::Join(id as u32), u64::MAX);
        }
        sim().tasks[id].pthread = 0;
    }
    rf(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut u8), o: *mut u8, dso: *mut u8) -> c_int {
    let me = cur_task();
    if me == NOTASK {
        let rf = real!("__cxa_thread_atexit_impl", unsafe extern "C" fn(unsafe extern "C" fn(*mut u8), *mut u8, *mut u8) -> c_int);
        return rf(f, o, dso);
    }
    let _g = Rt::enter();
    sim().tasks[me as usize].dtors.push((f, o as usize));
    0
}
/// Create the first task of a simulation from the (non-task) main thread and start it.
pub fn spawn_root<F: FnOnce() + Send + 'static>(f: F) {
    extern "C" fn start<F: FnOnce() + Send + 'static>(p: *mut c_void) -> *mut c_void {
        let f = unsafe { Box::from_raw(p as *mut F) };
        f();
        std::ptr::null_mut()
    }
    unsafe {
        let rf = real!("pthread_create", CreateFn);
        let id = new_task(0, "root".into());
        let word = sim().tasks[id as usize].word;
        let arg = Box::into_raw(Box::new(f)) as *mut c_void;
        let b = Box::into_raw(Box::new(Start { f: start::<F>, arg, id, word }));
        let mut t: libc::pthread_t = 0;
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let r = rf(&mut t, &attr, trampoline, b as *mut c_void);
        assert_eq!(r, 0);
        sim().tasks[id as usize].pthread = t as u64;
        start_first(id);
    }
}

// ---------------------------------------------------------------- files
fn is_virtual(fd: c_int) -> bool {
    fd >= vos::FD_BASE
}
unsafe fn cstr(p: *const c_char) -> String {
    String::from_utf8_lossy(std::ffi::CStr::from_ptr(p).to_bytes()).into_owned()
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0));
    }
    let _g = Rt::enter();
    vret(vos::read(fd, std::slice::from_raw_parts_mut(p as *mut u8, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0));
    }
    let _g = Rt::enter();
    vret(vos::write(fd, std::slice::from_raw_parts(p as *const u8, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0));
    }
    let _g = Rt::enter();
    let mut v = Vec::new();
    for i in 0..cnt as usize {
        let x = &*iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    vret(vos::write(fd, &v)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0));
    }
    let _g = Rt::enter();
    let x = &*iov;
    vret(vos::read(fd, std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !is_virtual(fd) || cur_task() == NOTASK {
        return ret(raw_syscall(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::close(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_open, path as usize, flags as usize, mode as usize, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::open(&cstr(path), flags, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::fcntl(fd, cmd, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    if req == libc::FIONBIO as libc::c_ulong {
        let on = *(arg as *const c_int) != 0;
        return vret(vos::set_nonblock(fd, on)) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as off64_t;
    }
    let _g = Rt::enter();
    vret(vos::lseek(fd, off, wh))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::fsync(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::ftruncate(fd, len as u64)) as c_int
}
unsafe fn put_stat(st: &vos::StatInfo, b: *mut libc::stat64) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*b).st_ino = st.ino;
    (*b).st_dev = 77;
    (*b).st_mode = st.mode;
    (*b).st_nlink = 1;
    (*b).st_size = st.size as i64;
    (*b).st_blksize = 4096;
    (*b).st_mtime = (st.mtime / SEC) as i64;
    (*b).st_mtime_nsec = (st.mtime % SEC) as i64;
    (*b).st_ctime = (*b).st_mtime;
    (*b).st_atime = (*b).st_mtime;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_fstat, fd as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::fstat(fd).map(|s| {
        put_stat(&s, b);
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_stat, p as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::stat(&cstr(p)).map(|s| {
        put_stat(&s, b);
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_lstat, p as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dfd: c_int, p: *const c_char, b: *mut libc::stat64, fl: c_int) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_newfstatat, dfd as usize, p as usize, b as usize, fl as usize, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::stat_at(dfd, &cstr(p)).map(|s| {
        put_stat(&s, b);
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_statx, dfd as usize, p as usize, fl as usize, mask as usize, b as usize, 0)) as c_int;
    }
    let _g = Rt::enter();
    let path = if p.is_null() { String::new() } else { cstr(p) };
    let r = if path.is_empty() { vos::fstat(dfd) } else { vos::stat_at(dfd, &path) };
    match r {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(s) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*b).stx_mask = 0x7ff;
            (*b).stx_mode = s.mode as u16;
            (*b).stx_ino = s.ino;
            (*b).stx_nlink = 1;
            (*b).stx_size = s.size;
            (*b).stx_blksize = 4096;
            let t = libc::statx_timestamp { tv_sec: (s.mtime / SEC) as i64, tv_nsec: (s.mtime % SEC) as u32, ..std::mem::zeroed() };
            (*b).stx_mtime = t;
            (*b).stx_ctime = t;
            (*b).stx_atime = t;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::rename(&cstr(a), &cstr(b))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::unlink(&cstr(a))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: c_uint) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_mkdir, a as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::mkdir(&cstr(a))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: c_uint) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_chmod, a as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::chmod(&cstr(a), m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::fchmod(fd, m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return ret(raw_syscall(libc::SYS_readlink, a as usize, b as usize, n, 0, 0, 0));
    }
    set_errno(libc::EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        let rf = real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
        return rf(p, out);
    }
    let _g = Rt::enter();
    match vos::realpath(&cstr(p)) {
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        Ok(s) => {
            let c = std::ffi::CString::new(s).unwrap();
            let o = if out.is_null() { libc::malloc(c.as_bytes_with_nul().len()) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(c.as_ptr(), o, c.as_bytes_with_nul().len());
            o
        }
    }
}
struct VDir {
    entries: Vec<(String, u64, bool)>,
    pos: usize,
    fd: c_int,
    ent: libc::dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if !active() {
        let rf = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR);
        return rf(p);
    }
    let _g = Rt::enter();
    match vos::list_dir(&cstr(p)) {
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        Ok(entries) => {
            let fd = vos::open(&cstr(p), libc::O_RDONLY | libc::O_DIRECTORY, 0).unwrap_or(-1) as c_int;
            Box::into_raw(Box::new(VDir { entries, pos: 0, fd, ent: std::mem::zeroed() })) as *mut libc::DIR
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if cur_task() == NOTASK {
        let rf = real!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64);
        return rf(d);
    }
    let _g = Rt::enter();
    let v = &mut *(d as *mut VDir);
    if v.pos >= v.entries.len() {
        return std::ptr::null_mut();
    }
    let (name, ino, dir) = &v.entries[v.pos];
    v.pos += 1;
    v.ent.d_ino = *ino;
    v.ent.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
    v.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    let n = name.len().min(255);
    for (i, b) in name.bytes().take(n).enumerate() {
        v.ent.d_name[i] = b as c_char;
    }
    v.ent.d_name[n] = 0;
    &mut v.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if cur_task() == NOTASK {
        let rf = real!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int);
        return rf(d);
    }
    let _g = Rt::enter();
    let v = Box::from_raw(d as *mut VDir);
    if v.fd >= 0 {
        let _ = vos::close(v.fd);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if cur_task() == NOTASK {
        let rf = real!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int);
        return rf(d);
    }
    (*(d as *mut VDir)).fd
}

// ---------------------------------------------------------------- pipes, polling, inotify
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, fl: c_int) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_pipe2, fds as usize, fl as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    let (r, w) = vos::pipe(cur_proc(), 65536, fl & libc::O_NONBLOCK != 0);
    *fds = r;
    *fds.add(1) = w;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_epoll_create1, fl as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vos::epoll_create(cur_proc())
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !active() || !is_virtual(ep) {
        return ret(raw_syscall(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    let (e, d) = if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) };
    vret(vos::epoll_ctl(ep, op, fd, e, d)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, tmo: c_int) -> c_int {
    if !active() || !is_virtual(ep) {
        return ret(raw_syscall(libc::SYS_epoll_wait, ep as usize, evs as usize, max as usize, tmo as usize, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    match vos::epoll_wait(ep, max as usize, tmo) {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(v) => {
            for (i, (e, d)) in v.iter().enumerate() {
                (*evs.add(i)).events = *e;
                (*evs.add(i)).u64 = *d;
            }
            v.len() as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn inotify_init1(fl: c_int) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_inotify_init1, fl as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vos::inotify_init(cur_proc(), fl & libc::IN_NONBLOCK != 0)
}
#[no_mangle]
pub unsafe extern "C" fn inotify_init() -> c_int {
    inotify_init1(0)
}
#[no_mangle]
pub unsafe extern "C" fn inotify_add_watch(fd: c_int, p: *const c_char, m: u32) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_inotify_add_watch, fd as usize, p as usize, m as usize, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::inotify_add(fd, &cstr(p), m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn inotify_rm_watch(fd: c_int, wd: c_int) -> c_int {
    if !active() || !is_virtual(fd) {
        return ret(raw_syscall(libc::SYS_inotify_rm_watch, fd as usize, wd as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    vret(vos::inotify_rm(fd, wd)) as c_int
}

// ---------------------------------------------------------------- processes
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut c_void) -> c_int {
    if !active() {
        let rf = real!("posix_spawn_file_actions_init", unsafe extern "C" fn(*mut c_void) -> c_int);
        return rf(a);
    }
    let _g = Rt::enter();
    vos::vos().spawn_actions.insert(a as usize, Vec::new());
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(a: *mut c_void) -> c_int {
    if !active() {
        let rf = real!("posix_spawn_file_actions_destroy", unsafe extern "C" fn(*mut c_void) -> c_int);
        return rf(a);
    }
    let _g = Rt::enter();
    vos::vos().spawn_actions.remove(&(a as usize));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut c_void, x: c_int, y: c_int) -> c_int {
    if !active() {
        let rf = real!("posix_spawn_file_actions_adddup2", unsafe extern "C" fn(*mut c_void, c_int, c_int) -> c_int);
        return rf(a, x, y);
    }
    let _g = Rt::enter();
    vos::vos().spawn_actions.entry(a as usize).or_default().push((x, y));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    actions: *const c_void,
    attr: *const c_void,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if !active() {
        let rf = real!(
            "posix_spawnp",
            unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int
        );
        return rf(pid, file, actions, attr, argv, envp);
    }
    let _g = Rt::enter();
    match vos::spawn_process(&cstr(file), actions as usize) {
        Ok(p) => {
            *pid = p;
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, st: *mut c_int, opt: c_int) -> libc::pid_t {
    if !active() {
        return ret(raw_syscall(libc::SYS_wait4, pid as usize, st as usize, opt as usize, 0, 0, 0)) as c_int;
    }
    let _g = Rt::enter();
    match vos::wait_pid(pid, opt & libc::WNOHANG != 0) {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(None) => 0,
        Ok(Some(s)) => {
            if !st.is_null() {
                *st = s;
            }
            pid
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if !active() {
        return ret(raw_syscall(libc::SYS_kill, pid as usize, sig as usize, 0, 0, 0, 0)) as c_int;
    }
    // never a real signal from simulated code
    let _g = Rt::enter();
    if vos::vos().procs.contains_key(&(pid as u32)) {
        vos::kill_process(pid as u32, 9);
        return 0;
    }
    set_errno(libc::ESRCH);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if cur_task() == NOTASK {
        let rf = real!("fork", unsafe extern "C" fn() -> libc::pid_t);
        return rf();
    }
    verdict("harness", "fork called by simulated code".into());
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if cur_task() != NOTASK {
        let _g = Rt::enter();
        let p = cur_proc();
        if p == 0 {
            verdict("harness", format!("harness called exit({})", code));
        }
        log(format!("exit({}) by process {}", code, p));
        vos::exit_process(p, code << 8);
        kill_proc_tasks(p);
    }
    let rf = real!("exit", unsafe extern "C" fn(c_int) -> !);
    rf(code)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_cond_wait(c: *mut c_void, m: *mut c_void) -> c_int {
    if cur_task() != NOTASK {
        verdict("harness", "pthread_cond_wait in a task".into());
    }
    let rf = real!("pthread_cond_wait", unsafe extern "C" fn(*mut c_void, *mut c_void) -> c_int);
    rf(c, m)
}
