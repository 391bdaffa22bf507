//! Work sharing: a worker that has more than one pending path hands the oldest half to a forked child while idle slots exist.
use crate::exec::*;
use std::sync::atomic::{AtomicI64, Ordering::*};
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn fork() -> i32; fn _exit(c: i32) -> !; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32; }
#[derive(Clone)]
pub struct Shared { p: *mut AtomicI64, pub dir: String, pub child: bool }
impl Shared {
    pub fn new(slots: i64, dir: &str) -> Shared {
        unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI64; (*p).store(slots, SeqCst); (*p.add(1)).store(0, SeqCst); (*p.add(2)).store(0, SeqCst); Shared { p, dir: dir.into(), child: false } }
    }
    fn idle(&self) -> &AtomicI64 { unsafe { &*self.p } }
    fn stop(&self) -> &AtomicI64 { unsafe { &*self.p.add(1) } }
    pub fn live(&self) -> &AtomicI64 { unsafe { &*self.p.add(2) } }
    pub fn stopped(&self) -> bool { self.stop().load(Relaxed) != 0 }
    pub fn set_stop(&self) { self.stop().store(1, Relaxed) }
}
/// Returns true in the forked child (whose queue then holds its share; the path being run belongs to the parent).
pub fn maybe_split(ex: &mut Exec) -> bool {
    let sh = match &ex.shared { Some(s) => s.clone(), None => return false };
    if ex.queue.len() < 2 || sh.idle().load(Relaxed) <= 0 { return false }
    if sh.idle().fetch_sub(1, SeqCst) <= 0 { sh.idle().fetch_add(1, SeqCst); return false }
    sh.live().fetch_add(1, SeqCst);
    let half = (ex.queue.len() / 2).max(1);
    let pid = unsafe { fork() };
    if pid < 0 { sh.idle().fetch_add(1, SeqCst); sh.live().fetch_add(-1, SeqCst); return false }
    if pid > 0 { ex.queue.drain(..half); return false }
    ex.queue.truncate(half);
    ex.out = Out::default(); ex.sv.st = Default::default();
    for b in ex.cov.iter_mut() { *b = false }
    for b in ex.fcov.iter_mut() { *b = false }
    ex.shared.as_mut().unwrap().child = true;
    true
}
pub fn child_done(ex: &mut Exec) -> ! {
    let sh = ex.shared.as_ref().unwrap().clone();
    let f = format!("{}/res.{}", sh.dir, std::process::id());
    let _ = std::fs::write(&f, crate::report::serialise(ex));
    sh.idle().fetch_add(1, SeqCst);
    unsafe { _exit(0) }
}
/// Become the reaper of all descendants.
pub fn subreaper() { unsafe { prctl(36, 1, 0, 0, 0); } }
/// Wait until every descendant has ended.
pub fn wait_all() { unsafe { let mut s = 0; while waitpid(-1, &mut s, 0) > 0 {} } }
