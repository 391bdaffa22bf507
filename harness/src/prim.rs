//! Harness primitives.  Under the symbolic engine they are built in; natively (replay) they are
//! implemented in native/main.rs and take their values from a recorded counterexample.
extern "C-unwind" {
    fn vx_bytes(p: *mut u8, n: u64);
    fn vx_assume(c: bool);
    fn vx_assert(c: bool, p: *const u8, n: u64);
    fn vx_reach(p: *const u8, n: u64);
    fn vx_choose(n: u64) -> u64;
    fn vx_concrete(x: u64) -> u64;
    fn vx_is_symbolic() -> i32;
    fn vx_catch(f: extern "C-unwind" fn(*mut u8), arg: *mut u8) -> i32;
    fn vx_note(p: *const u8, n: u64);
    fn vx_yield();
    fn vx_explore(preemptions: u64);
    fn vx_fs_short_writes(b: i32);
    fn vx_time(s: u64, n: u64);
    fn vx_fs_fault(n: u64, mode: u64, part: u64) -> i32;
}
pub fn bytes(b: &mut [u8]) { unsafe { vx_bytes(b.as_mut_ptr(), b.len() as u64) } }
pub fn vecn(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; bytes(&mut v); v }
pub fn u8() -> u8 { let mut b = [0u8; 1]; bytes(&mut b); b[0] }
pub fn u16() -> u16 { let mut b = [0u8; 2]; bytes(&mut b); u16::from_le_bytes(b) }
pub fn u32() -> u32 { let mut b = [0u8; 4]; bytes(&mut b); u32::from_le_bytes(b) }
pub fn u64() -> u64 { let mut b = [0u8; 8]; bytes(&mut b); u64::from_le_bytes(b) }
pub fn f64() -> f64 { f64::from_bits(u64()) }
pub fn boolean() -> bool { choose(2) == 1 }
pub fn assume(c: bool) { unsafe { vx_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { vx_assert(c, id.as_ptr(), id.len() as u64) } }
pub fn reach(id: &str) { unsafe { vx_reach(id.as_ptr(), id.len() as u64) } }
/// One of 0..n, each explored.
pub fn choose(n: usize) -> usize { unsafe { vx_choose(n as u64) as usize } }
pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choose(xs.len())] }
/// Splits the path on the value (one path per feasible value).
pub fn concrete(x: u64) -> u64 { unsafe { vx_concrete(x) } }
pub fn symbolic() -> bool { unsafe { vx_is_symbolic() != 0 } }
pub fn note(s: &str) { unsafe { vx_note(s.as_ptr(), s.len() as u64) } }
pub fn yield_now() { unsafe { vx_yield() } }
pub fn explore(preemptions: u64) { unsafe { vx_explore(preemptions) } }
pub fn short_writes(b: bool) { unsafe { vx_fs_short_writes(b as i32) } }
pub fn set_time(s: u64, n: u64) { unsafe { vx_time(s, n) } }

/// Runs `f`; None if it panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct Ctx<R, F> { f: Option<F>, r: Option<R> }
    extern "C-unwind" fn tramp<R, F: FnOnce() -> R>(p: *mut u8) {
        let c = unsafe { &mut *(p as *mut Ctx<R, F>) };
        let f = c.f.take().unwrap();
        c.r = Some(f());
    }
    let mut c = Ctx { f: Some(f), r: None };
    let k = unsafe { vx_catch(tramp::<R, F>, &mut c as *mut _ as *mut u8) };
    if k != 0 { return None }
    c.r.take()
}

/// Temporary directory of this run, made afresh.
pub fn dir(name: &str) -> std::path::PathBuf {
    let base = if symbolic() { std::path::PathBuf::from("/tmp") } else { std::env::var_os("VX_DIR").expect("VX_DIR").into() };
    base.join(name)
}

/// Runs the closures as concurrent threads; returns when all have ended.
#[cfg(feature = "sym")]
pub fn par(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let hs: Vec<_> = fs.into_iter().map(|f| std::thread::spawn(f)).collect();
    for h in hs { let _ = h.join(); }
}
#[cfg(not(feature = "sym"))]
static PAR: std::sync::Mutex<Option<fn(Vec<Box<dyn FnOnce() + Send>>)>> = std::sync::Mutex::new(None);
#[cfg(not(feature = "sym"))]
pub fn set_par(f: fn(Vec<Box<dyn FnOnce() + Send>>)) { *PAR.lock().unwrap() = Some(f) }
#[cfg(not(feature = "sym"))]
pub fn par(fs: Vec<Box<dyn FnOnce() + Send>>) { let f = PAR.lock().unwrap().unwrap(); f(fs) }

/// Part of a run that is over, its process gone, when this returns.  Draws nothing.
#[cfg(feature = "sym")]
pub fn phase<F: FnOnce()>(f: F) { f() }
#[cfg(not(feature = "sym"))]
pub fn phase<F: FnOnce()>(f: F) {
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let p = fork();
        if p == 0 {
            let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
            if bad { println!("REPLAY-VIOLATION panic") }
            let _ = std::io::stdout().flush();
            _exit(bad as i32)
        }
        let mut s = 0;
        waitpid(p, &mut s, 0);
        if s != 0 { _exit(if s & 127 != 0 { 101 } else { s >> 8 }) }
    }
}

/// How a run went during which the disk refused an operation or the process died.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Went { Well(u8), Panicked, Died }
/// Full: the n-th change to the file system fails; Fuller: so do all after it; Dies: the process is gone at
/// it, of a write only the first bytes are done.  (What lies within a store's own directory does not count.)
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Trouble { None, Full(usize), Fuller(usize), Dies(usize, usize) }
pub fn trouble(n: usize) -> Trouble {
    let n = choose(n);
    match choose(3) { 0 => Trouble::Full(n), 1 => Trouble::Fuller(n), _ => Trouble::Dies(n, pick(&[0usize, 1, 30, 1 << 20])) }
}
/// From here on.
pub fn arm(t: Trouble) {
    let (n, m, p) = match t { Trouble::None => (0, 3, 0), Trouble::Full(n) => (n, 0, 0), Trouble::Fuller(n) => (n, 1, 0), Trouble::Dies(n, p) => (n, 2, p) };
    unsafe { vx_fs_fault(n as u64, m, p as u64); }
}
/// Ends the trouble; true if there was any.
pub fn calm() -> bool { unsafe { vx_fs_fault(0, 3, 0) != 0 } }
/// A part of a run as `phase`, which may come to a sudden end.  Draws nothing.
#[cfg(feature = "sym")]
pub fn troubled<F: FnOnce() -> u8>(f: F) -> Went {
    match catch(f) { Some(v) => { calm(); Went::Well(v) } None => if calm() { Went::Died } else { Went::Panicked } }
}
#[cfg(not(feature = "sym"))]
pub fn troubled<F: FnOnce() -> u8>(f: F) -> Went {
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let p = fork();
        if p == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let _ = std::io::stdout().flush();
            _exit(match r { Ok(v) => 32 + v as i32, Err(_) => 76 })
        }
        let mut s = 0;
        waitpid(p, &mut s, 0);
        match (s & 127, s >> 8) { (0, 76) => Went::Panicked, (0, 77) => Went::Died, (0, c) if c >= 32 => Went::Well((c - 32) as u8), (0, c) => _exit(c), _ => _exit(101) }
    }
}

/// A string of `n` symbolic ASCII characters.
pub fn ascii(n: usize) -> String {
    let v = vecn(n);
    for &b in &v { assume(b < 128) }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` symbolic characters that need no escaping anywhere.
pub fn plain(n: usize) -> String {
    let v = vecn(n);
    for &b in &v { assume((b >= b'0') & (b <= b'9')) }
    unsafe { String::from_utf8_unchecked(v) }
}
