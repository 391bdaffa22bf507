//! Replays a recorded assignment (and schedule) of a harness against the real code: the real sled,
//! tiny_http and file system, in a scratch directory named by VX_DIR.
//! usage: replay ENTRY FILE      FILE: one line per draw, hex; a line "sched a b c" gives the schedule.
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Condvar, Mutex};

struct W { nd: Vec<Vec<u8>>, at: usize, sched: Vec<u64>, sat: usize, explore: bool, preempt: u64, stat: Vec<S>, cur: usize, short: bool }
#[derive(Clone, Copy, PartialEq, Debug)]
enum S { Run, Blocked, Join(usize), Done }
static WORLD: Mutex<W> = Mutex::new(W { nd: Vec::new(), at: 0, sched: Vec::new(), sat: 0, explore: false, preempt: 0, stat: Vec::new(), cur: 0, short: false });
static CV: Condvar = Condvar::new();
thread_local!(static ME: std::cell::Cell<usize> = std::cell::Cell::new(0));

fn finish(line: &str, code: i32) -> ! {
    println!("{}", line);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    vh::run::stop();
    std::process::exit(code)
}
fn lock() -> std::sync::MutexGuard<'static, W> { WORLD.lock().unwrap_or_else(|e| e.into_inner()) }
fn draw() -> Vec<u8> {
    let mut w = lock();
    let i = w.at;
    w.at += 1;
    if i >= w.nd.len() { drop(w); finish("REPLAY-EXHAUSTED", 4) }
    w.nd[i].clone()
}
fn text(p: *const u8, n: u64) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n as usize) }).into_owned() }

#[no_mangle]
pub unsafe extern "C-unwind" fn vx_bytes(p: *mut u8, n: u64) {
    let b = draw();
    if b.len() as u64 != n { finish("REPLAY-MISMATCH", 4) }
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
}
#[no_mangle]
pub extern "C-unwind" fn vx_assume(c: bool) { if !c { finish("REPLAY-ASSUMPTION-FAILED", 3) } }
#[no_mangle]
pub extern "C-unwind" fn vx_assert(c: bool, p: *const u8, n: u64) { if !c { finish(&format!("REPLAY-VIOLATION {}", text(p, n)), 1) } }
#[no_mangle]
pub extern "C-unwind" fn vx_reach(p: *const u8, n: u64) { println!("REACHED {}", text(p, n)) }
#[no_mangle]
pub extern "C-unwind" fn vx_choose(_n: u64) -> u64 { draw()[0] as u64 }
#[no_mangle]
pub extern "C-unwind" fn vx_concrete(x: u64) -> u64 { x }
#[no_mangle]
pub extern "C-unwind" fn vx_is_symbolic() -> i32 { 0 }
#[no_mangle]
pub extern "C-unwind" fn vx_catch(f: extern "C-unwind" fn(*mut u8), arg: *mut u8) -> i32 {
    let a = arg as usize;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f(a as *mut u8))).is_err() as i32
}
#[no_mangle]
pub extern "C-unwind" fn vx_note(p: *const u8, n: u64) { println!("NOTE {}", text(p, n)) }
#[no_mangle]
pub extern "C-unwind" fn vx_fs_short_writes(b: i32) { lock().short = b != 0 }
#[no_mangle]
pub extern "C-unwind" fn vx_time(_s: u64, _n: u64) {}
static START: AtomicI64 = AtomicI64::new(0);
/// The day's time as the engine has it (the harnesses' assignments speak of it), running on from there.
static STEP: std::sync::OnceLock<i64> = std::sync::OnceLock::new();
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut [i64; 2]) -> i32 {
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    let mut now = [0i64; 2];
    let r = syscall(228, clk as i64, &mut now as *mut _) as i32;
    if r == 0 && clk == 0 {
        let _ = START.compare_exchange(0, now[0] * 1_000_000_000 + now[1], Ordering::SeqCst, Ordering::SeqCst);
        let d = now[0] * 1_000_000_000 + now[1] - START.load(Ordering::SeqCst);
        // (a clock may be as coarse as it likes: VX_CLOCK_MS makes it so)
        let step = STEP.get_or_init(|| std::env::var("VX_CLOCK_MS").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(0) * 1_000_000);
        let d = if *step > 0 { d / step * step } else { d };
        now = [1_700_000_000 + d / 1_000_000_000, d % 1_000_000_000];
    }
    *t = now;
    r
}

// ------------------------------------------------- a disk that refuses, a process that dies (as the engine's vx_fs_fault)
static MODE: AtomicI64 = AtomicI64::new(3);
static LEFT: AtomicI64 = AtomicI64::new(0);
static PART: AtomicI64 = AtomicI64::new(0);
static HIT: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub extern "C-unwind" fn vx_fs_fault(n: u64, mode: u64, part: u64) -> i32 {
    LEFT.store(n as i64, Ordering::SeqCst);
    PART.store(part as i64, Ordering::SeqCst);
    MODE.store(mode as i64, Ordering::SeqCst);
    HIT.swap(0, Ordering::SeqCst) as i32
}
mod sys {
    use super::*;
    extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; fn _exit(c: i32) -> !; }
    type P = *const i8;
    unsafe fn is(p: P, kind: u32) -> bool {
        let mut st = [0u32; 64];
        let e = *__errno_location();
        let r = syscall(4, p, st.as_mut_ptr());
        *__errno_location() = e;
        r == 0 && (kind == 0 || st[6] & 0o170000 == kind)
    }
    unsafe fn parent(p: P) -> bool {
        let mut b = std::ffi::CStr::from_ptr(p).to_bytes().to_vec();
        while b.len() > 1 && b.ends_with(b"/") { b.pop(); }
        match b.iter().rposition(|c| *c == b'/') { Some(0) => return true, Some(i) => b.truncate(i), None => return true }
        b.push(0);
        is(b.as_ptr() as P, 0o040000)
    }
    unsafe fn of(fd: i32) -> Vec<u8> {
        let mut b = vec![0u8; 4096];
        let n = syscall(89, format!("/proc/self/fd/{}\0", fd).as_ptr(), b.as_mut_ptr(), 4096i64);
        b.truncate(n.max(0) as usize);
        b
    }
    /// 0: goes on, 1: refused, 2: dies
    unsafe fn strike(path: &[u8]) -> i32 {
        let m = MODE.load(Ordering::SeqCst);
        if m >= 3 || !path.starts_with(b"/") || path.starts_with(b"/dev/null") || path.starts_with(b"/proc") { return 0 }
        if path.windows(9).any(|w| w == b"/storage/" || w == b"/indexer/") { return 0 }
        if LEFT.fetch_sub(1, Ordering::SeqCst) > 0 { return 0 }
        HIT.store(1, Ordering::SeqCst);
        if m == 1 { LEFT.store(0, Ordering::SeqCst) } else { MODE.store(3, Ordering::SeqCst) }
        if m == 2 { return 2 }
        *__errno_location() = 28;
        1
    }
    fn on() -> bool { MODE.load(Ordering::SeqCst) < 3 }
    unsafe fn name<'a>(p: P) -> &'a [u8] { std::ffi::CStr::from_ptr(p).to_bytes() }
    macro_rules! hit { ($p:expr) => { match strike($p) { 0 => {} 1 => return -1, _ => _exit(77) } } }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: P, fl: i32, mode: u32) -> i32 {
        if on() && (if is(p, 0) { is(p, 0o100000) && fl & 0o1000 != 0 } else { fl & 0o100 != 0 && parent(p) }) { hit!(name(p)) }
        syscall(2, p, fl as i64, mode as i64) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(p: P, mode: u32) -> i32 {
        if on() && !is(p, 0) && parent(p) { hit!(name(p)) }
        syscall(83, p, mode as i64) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(p: P, q: P) -> i32 {
        if on() && is(p, 0) { hit!(name(p)) }
        syscall(82, p, q) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(p: P) -> i32 {
        if on() && is(p, 0o100000) { hit!(name(p)) }
        syscall(87, p) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        if on() && fd > 2 {
            match strike(&of(fd)) { 0 => {} 1 => return -1, _ => { let w = n.min(PART.load(Ordering::SeqCst) as usize); if w > 0 { syscall(1, fd as i64, p, w); } _exit(77) } }
        }
        syscall(1, fd as i64, p, n) as isize
    }
    /// Copies are made by reads and writes.
    #[no_mangle]
    pub unsafe extern "C" fn copy_file_range(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize { *__errno_location() = 38; -1 }
    #[no_mangle]
    pub unsafe extern "C" fn sendfile64(_: i32, _: i32, _: *mut i64, _: usize) -> isize { *__errno_location() = 38; -1 }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
        if on() && fd > 2 { hit!(&of(fd)) }
        syscall(77, fd as i64, n) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
        if on() && fd > 2 { hit!(&of(fd)) }
        syscall(74, fd as i64) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
        if on() && fd > 2 { hit!(&of(fd)) }
        syscall(75, fd as i64) as i32
    }
}

// ------------------------------------------------- one thread at a time, as the recorded schedule says
fn wait_turn(mut w: std::sync::MutexGuard<'static, W>, me: usize) {
    while w.cur != me { w = CV.wait(w).unwrap_or_else(|e| e.into_inner()) }
}
fn pick(w: &mut W, n: usize) -> usize {
    if n <= 1 { return 0 }
    let i = w.sat;
    w.sat += 1;
    (w.sched.get(i).copied().unwrap_or(0) as usize).min(n - 1)
}
/// The current thread cannot go on: choose another.
fn reschedule(w: &mut W) {
    let run: Vec<usize> = (0..w.stat.len()).filter(|i| w.stat[*i] == S::Run).collect();
    if run.is_empty() { finish("REPLAY-VIOLATION deadlock", 1) }
    let k = if w.explore { pick(w, run.len()) } else { run.iter().position(|i| *i > w.cur).unwrap_or(0) };
    w.cur = run[k];
    CV.notify_all();
}
#[no_mangle]
pub extern "C-unwind" fn vx_explore(p: u64) { let mut w = lock(); w.explore = true; w.preempt = p }
#[no_mangle]
pub extern "C-unwind" fn vx_yield() {
    let me = ME.with(|m| m.get());
    let mut w = lock();
    if w.stat.is_empty() || !w.explore || w.preempt == 0 { return }
    let others: Vec<usize> = (0..w.stat.len()).filter(|i| *i != me && w.stat[*i] == S::Run).collect();
    if others.is_empty() { return }
    let x = pick(&mut w, others.len() + 1);
    if x > 0 { w.preempt -= 1; w.cur = others[x - 1]; CV.notify_all(); wait_turn(w, me) }
}
#[no_mangle]
pub extern "C-unwind" fn vx_block() {
    let me = ME.with(|m| m.get());
    let mut w = lock();
    if w.stat.is_empty() { drop(w); std::thread::yield_now(); return }
    w.stat[me] = S::Blocked;
    reschedule(&mut w);
    wait_turn(w, me)
}
#[no_mangle]
pub extern "C-unwind" fn vx_wake() { let mut w = lock(); for s in w.stat.iter_mut() { if *s == S::Blocked { *s = S::Run } } }
/// Runs the closures as threads under the recorded schedule.
fn par(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let n = fs.len();
    { let mut w = lock(); w.stat = vec![S::Run; n + 1]; w.cur = 0 }
    let hs: Vec<_> = fs.into_iter().enumerate().map(|(i, f)| std::thread::spawn(move || {
        ME.with(|m| m.set(i + 1));
        wait_turn(lock(), i + 1);
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() { finish("REPLAY-VIOLATION panic", 1) }
        let mut w = lock();
        w.stat[i + 1] = S::Done;
        for s in w.stat.iter_mut() { if *s == S::Join(i + 1) { *s = S::Run } }
        reschedule(&mut w);
    })).collect();
    for i in 1..=n {
        let mut w = lock();
        if w.stat[i] != S::Done { w.stat[0] = S::Join(i); reschedule(&mut w); wait_turn(w, 0) }
    }
    for h in hs { let _ = h.join(); }
    lock().stat.clear();
}

fn main() -> std::process::ExitCode {
    if std::env::var_os("VX_MAIN").is_some() {
        // the program itself, for as long as the replay lasts
        extern "C" { fn prctl(o: i32, ...) -> i32; }
        unsafe { prctl(1, 9); }
        return std::process::Termination::report(vh::run::server_main::verif_main())
    }
    let _ = std::time::SystemTime::now();
    let a: Vec<String> = std::env::args().collect();
    let f = vh::ENTRIES.iter().find(|e| e.0 == a[1]).unwrap_or_else(|| finish("REPLAY-NO-SUCH-ENTRY", 5)).1;
    {
        let mut w = lock();
        for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
            if let Some(r) = l.strip_prefix("sched") { w.sched = r.split_whitespace().map(|x| x.parse().unwrap()).collect(); continue }
            if l.starts_with('#') { continue }
            w.nd.push((0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect());
        }
    }
    vh::prim::set_par(par);
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || std::panic::catch_unwind(f).is_err()).unwrap();
    if h.join().unwrap_or(true) { finish("REPLAY-VIOLATION panic", 1) }
    finish("REPLAY-DONE", 0)
}
