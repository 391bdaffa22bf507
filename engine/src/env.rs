//! Environment: LLVM intrinsics, harness primitives (vx_*), libc / pthread / file-system models.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum FNode { Dir, File(u64) }
#[derive(Clone)]
pub struct Fd { pub ino: u64, pub off: u64, pub append: bool, pub path: String, pub dir: bool, pub rd: bool, pub wr: bool }
#[derive(Clone, Default)]
pub struct Fs { pub nodes: BTreeMap<String, FNode>, pub inodes: BTreeMap<u64, Rc<Obj>>, pub fds: BTreeMap<u64, Fd>, pub dirs: BTreeMap<u64, (Vec<(String, bool)>, usize)>, pub next: u64, pub short_writes: bool, pub rnd: u64, pub fault: Option<(u64, u64, u64)>, pub hit: bool, pub cwd: String }
impl Fs {
    fn abs(&self, p: &[u8]) -> String {
        // (names that are not text are kept apart from those that are, byte by byte)
        let s = p.split(|b| *b == b'/').map(|c| match std::str::from_utf8(c) { Ok(t) => t.to_string(), Err(_) => c.iter().map(|b| char::from_u32(0x10f000 + *b as u32).unwrap()).collect() }).collect::<Vec<String>>().join("/");
        let s = if s.starts_with('/') { s } else { format!("{}/{}", if self.cwd.is_empty() { "/w" } else { &self.cwd }, s) };
        let mut out: Vec<&str> = vec![];
        for c in s.split('/') { match c { "" | "." => {} ".." => { out.pop(); } x => out.push(x) } }
        format!("/{}", out.join("/"))
    }
    fn name(s: &str) -> Vec<u8> { s.chars().flat_map(|c| if c as u32 >= 0x10f000 { vec![c as u32 as u8] } else { c.to_string().into_bytes() }).collect() }
    fn parent_ok(&self, p: &str) -> bool { let d = &p[..p.rfind('/').unwrap()]; self.is_dir(d) }
    fn is_dir(&self, p: &str) -> bool { matches!(p, "" | "/" | "/w" | "/tmp" | "/dev") || matches!(self.nodes.get(p), Some(FNode::Dir)) }
    fn newid(&mut self) -> u64 { self.next += 1; self.next + 10 }
    fn list(&self, p: &str) -> Vec<(String, bool)> { let pre = if p == "/" { "/".into() } else { format!("{}/", p) }; self.nodes.iter().filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/')).map(|(k, n)| (k[pre.len()..].to_string(), matches!(n, FNode::Dir))).collect() }
}

/// A deadline beyond this (three years of virtual time) is not waited for.
const NEVER: u64 = 100_000_000_000_000_000;

pub fn is_builtin(n: &str) -> bool {
    // defined functions that are nevertheless replaced by a model
    n.starts_with("vx_") || n.contains("detect_and_initialize")
}

fn lanes(args: &[RV], f: &dyn Fn(&[Val]) -> Val) -> RV {
    match &args[0] {
        RV::A(a) => RV::A(Rc::new((0..a.len()).map(|i| { let v: Vec<Val> = args.iter().map(|x| match x { RV::A(y) => y[i].v(), RV::V(v) => *v, RV::N => cb(false) }).collect(); RV::V(f(&v)) }).collect())),
        _ => { let v: Vec<Val> = args.iter().map(|x| match x { RV::V(v) => *v, _ => cb(false) }).collect(); RV::V(f(&v)) }
    }
}
fn ctpop(v: Val) -> Val { if v.is_c() { return c(v.w, v.v.count_ones() as u128) } let mut r = c(v.w, 0); for i in 0..v.w { r = bin(Op::Add, r, zext(extract(v, i, i), v.w)) } r }
fn ctlz(v: Val) -> Val { if v.is_c() { return c(v.w, (v.v.leading_zeros() as u128) - (128 - v.w as u128)) }
    let mut r = c(v.w, v.w as u128); for i in 0..v.w { r = ite(extract(v, i, i), c(v.w, (v.w - 1 - i) as u128), r) } r }
fn cttz(v: Val) -> Val { if v.is_c() { return c(v.w, (v.v.trailing_zeros() as u128).min(v.w as u128)) }
    let mut r = c(v.w, v.w as u128); for i in (0..v.w).rev() { r = ite(extract(v, i, i), c(v.w, i as u128), r) } r }
fn bswap(v: Val) -> Val { let n = v.w / 8; let mut r = extract(v, 7, 0); for i in 1..n { r = concat(r, extract(v, i * 8 + 7, i * 8)) } r }
fn bitrev(v: Val) -> Val { let mut r = extract(v, 0, 0); for i in 1..v.w { r = concat(r, extract(v, i, i)) } r }
fn fsh(a: Val, b: Val, s: Val, left: bool) -> Val {
    let w = a.w; let s = bin(Op::URem, s, c(w, w as u128));
    if s.is_c() { let k = s.v as u16; if k == 0 { return if left { a } else { b } }
        let k = if left { k } else { w - k }; return concat(extract(a, w - k - 1, 0), extract(b, w - 1, w - k)) }
    let inv = bin(Op::Sub, c(w, w as u128), s);
    if left { let r = bin(Op::Or, bin(Op::Shl, a, s), bin(Op::LShr, b, inv)); ite(bin(Op::Eq, s, c(w, 0)), a, r) }
    else { let r = bin(Op::Or, bin(Op::LShr, b, s), bin(Op::Shl, a, inv)); ite(bin(Op::Eq, s, c(w, 0)), b, r) }
}
fn ovf(op: &str, a: Val, b: Val) -> (Val, Val) {
    let w = a.w; let s = op.starts_with('s'); let o = match &op[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
    let r = bin(o, a, b);
    let of = match (s, o) {
        (false, Op::Add) => bin(Op::Ult, r, a),
        (false, Op::Sub) => bin(Op::Ult, a, b),
        (false, _) => if w <= 64 { let x = bin(Op::Mul, zext(a, 2 * w), zext(b, 2 * w)); not(bin(Op::Eq, extract(x, 2 * w - 1, w), c(w, 0))) }
            else { // overflow iff a != 0 && r / a != b
                if a.is_c() && b.is_c() { cb(a.v.checked_mul(b.v).map(|x| x > mask(w)).unwrap_or(true)) } else { bin(Op::And, not(bin(Op::Eq, a, c(w, 0))), not(bin(Op::Eq, bin(Op::UDiv, r, a), b))) } },
        (true, Op::Add) => { let (sa, sb, sr) = (extract(a, w - 1, w - 1), extract(b, w - 1, w - 1), extract(r, w - 1, w - 1)); bin(Op::And, bin(Op::Eq, sa, sb), not(bin(Op::Eq, sr, sa))) }
        (true, Op::Sub) => { let (sa, sb, sr) = (extract(a, w - 1, w - 1), extract(b, w - 1, w - 1), extract(r, w - 1, w - 1)); bin(Op::And, not(bin(Op::Eq, sa, sb)), not(bin(Op::Eq, sr, sa))) }
        (true, _) => if w <= 64 { let x = bin(Op::Mul, sext(a, 2 * w), sext(b, 2 * w)); not(bin(Op::Eq, x, sext(r, 2 * w))) }
            else if a.is_c() && b.is_c() { cb((sx(a.v, w)).checked_mul(sx(b.v, w)).map(|x| sx(x as u128 & mask(w), w) != x).unwrap_or(true)) } else { panic!("wide smul overflow") },
    };
    (r, of)
}

pub fn intrinsic(ex: &mut Exec, st: &mut State, n: &str, a: &[RV], rt: &Ty) -> R<Option<RV>> {
    let p: Vec<&str> = n.split('.').collect();
    let v = |i: usize| a[i].v();
    Ok(match p[1] {
        "lifetime" | "experimental" | "assume" | "dbg" | "donothing" | "sideeffect" | "prefetch" | "invariant" | "stackrestore" | "fake" | "pseudoprobe" => None,
        "memcpy" | "memmove" => { ex.memcpy(st, v(0), v(1), v(2))?; None }
        "memset" => { ex.memset(st, v(0), v(1), v(2))?; None }
        "umax" => Some(lanes(a, &|x| ite(bin(Op::Ult, x[0], x[1]), x[1], x[0]))),
        "umin" => Some(lanes(a, &|x| ite(bin(Op::Ult, x[0], x[1]), x[0], x[1]))),
        "smax" => Some(lanes(a, &|x| ite(bin(Op::Slt, x[0], x[1]), x[1], x[0]))),
        "smin" => Some(lanes(a, &|x| ite(bin(Op::Slt, x[0], x[1]), x[0], x[1]))),
        "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if p[2] == "with" => { let (r, o) = ovf(p[1], v(0), v(1)); Some(RV::A(Rc::new(vec![RV::V(r), RV::V(o)]))) }
        "uadd" if p[2] == "sat" => Some(lanes(a, &|x| { let (r, o) = ovf("uadd", x[0], x[1]); ite(o, c(r.w, !0), r) })),
        "usub" if p[2] == "sat" => Some(lanes(a, &|x| { let (r, o) = ovf("usub", x[0], x[1]); ite(o, c(r.w, 0), r) })),
        "sadd" | "ssub" if p[2] == "sat" => { let k = p[1].to_string(); Some(lanes(a, &|x| { let w = x[0].w; let (r, o) = ovf(&k, x[0], x[1]); ite(o, ite(extract(x[0], w - 1, w - 1), c(w, 1u128 << (w - 1)), c(w, (1u128 << (w - 1)) - 1)), r) })) }
        "ctpop" => Some(lanes(a, &|x| ctpop(x[0]))), "ctlz" => Some(lanes(&a[..1], &|x| ctlz(x[0]))), "cttz" => Some(lanes(&a[..1], &|x| cttz(x[0]))),
        "bswap" => Some(lanes(a, &|x| bswap(x[0]))), "bitreverse" => Some(lanes(a, &|x| bitrev(x[0]))),
        "fshl" => Some(lanes(a, &|x| fsh(x[0], x[1], x[2], true))), "fshr" => Some(lanes(a, &|x| fsh(x[0], x[1], x[2], false))),
        "abs" => Some(lanes(&a[..1], &|x| ite(extract(x[0], x[0].w - 1, x[0].w - 1), bin(Op::Sub, c(x[0].w, 0), x[0]), x[0]))),
        "ucmp" | "scmp" => { let o = if p[1] == "ucmp" { Op::Ult } else { Op::Slt }; let w = rt.width(); Some(RV::V(ite(bin(o, v(0), v(1)), c(w, !0), ite(bin(Op::Eq, v(0), v(1)), c(w, 0), c(w, 1))))) }
        "threadlocal" => { let ad = v(0).v as u64; let gid = ((ad >> SHIFT) - ex.m.fns.len() as u64 - 1) as u32;
            let cur = st.cur;
            if let Some(x) = st.th[cur].tls.get(&gid) { return Ok(Some(RV::V(c64(*x)))) }
            let o = (**ex.obj(st, ad >> SHIFT)?).clone();
            let na = st.mem.put_new(o);
            Rc::make_mut(&mut st.th[cur].tls).insert(gid, na);
            Some(RV::V(c64(na))) }
        "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Viol("panic".into(), format!("abort/trap [{}]", ex.where_(st)))),
        "is" if p[2] == "constant" => Some(RV::V(cb(false))),
        "is" if p[2] == "fpclass" => { let m = v(1).v; if m == 3 { Some(RV::V(is_nan(v(0)))) } else { return Err(Stop::Err(n.into())) } }
        "expect" | "annotation" | "launder" | "strip" | "arithmetic" | "ssa" => Some(a[0].clone()),
        "ptrmask" => Some(RV::V(bin(Op::And, v(0), v(1)))),
        "fabs" => Some(lanes(a, &|x| bin(Op::And, x[0], c(x[0].w, mask(x[0].w) >> 1)))),
        "copysign" => Some(lanes(a, &|x| { let w = x[0].w; concat(extract(x[1], w - 1, w - 1), extract(x[0], w - 2, 0)) })),
        "floor" => Some(lanes(a, &|x| fun(Op::FFloor, x[0], x[0].w))), "ceil" => Some(lanes(a, &|x| fun(Op::FCeil, x[0], x[0].w))), "trunc" => Some(lanes(a, &|x| fun(Op::FTruncI, x[0], x[0].w))),
        "rint" | "nearbyint" | "roundeven" => Some(lanes(a, &|x| fun(Op::FRoundEven, x[0], x[0].w))), "round" => Some(lanes(a, &|x| fun(Op::FRoundAway, x[0], x[0].w))), "sqrt" => Some(lanes(a, &|x| fun(Op::FSqrt, x[0], x[0].w))),
        "minnum" | "maxnum" | "minimumnum" | "maximumnum" => { let mn = p[1].starts_with("min"); Some(lanes(a, &|x| { let l = if mn { fbin(Op::FLt, x[0], x[1]) } else { fbin(Op::FLt, x[1], x[0]) }; ite(is_nan(x[0]), x[1], ite(is_nan(x[1]), x[0], ite(l, x[0], x[1]))) })) }
        "fptoui" | "fptosi" => { let w = rt.width(); let f = v(0); let sgn = p[1] == "fptosi";
            let (lo, hi): (f64, f64) = if sgn { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
            let k = |x: f64| if f.w == 64 { c(64, x.to_bits() as u128) } else { c(32, (x as f32).to_bits() as u128) };
            let (minv, maxv) = if sgn { (c(w, 1u128 << (w - 1)), c(w, (1u128 << (w - 1)) - 1)) } else { (c(w, 0), c(w, !0)) };
            if f.is_c() { let x = if f.w == 64 { f64::from_bits(f.v as u64) } else { f32::from_bits(f.v as u32) as f64 };
                Some(RV::V(if x.is_nan() { c(w, 0) } else if x >= hi { maxv } else if x <= lo { minv } else if sgn { c(w, x as i128 as u128) } else { c(w, x as u128) })) }
            else { let cv = fun(if sgn { Op::FpToSi } else { Op::FpToUi }, f, w);
                Some(RV::V(ite(is_nan(f), c(w, 0), ite(fbin(Op::FLe, k(hi), f), maxv, ite(fbin(Op::FLe, f, k(lo)), minv, cv))))) } }
        "x86" if p[2..] == ["sse2", "pause"] => None, // the step yields once the call is complete
        "stacksave" => Some(RV::V(c64(0))),
        "vector" if p[2] == "reduce" => { let l = a[0].agg().clone(); let mut r = l[0].v(); for x in &l[1..] { let x = x.v(); r = match p[3] { "or" => bin(Op::Or, r, x), "and" => bin(Op::And, r, x), "add" => bin(Op::Add, r, x), "xor" => bin(Op::Xor, r, x), "umax" => ite(bin(Op::Ult, r, x), x, r), "umin" => ite(bin(Op::Ult, r, x), r, x), _ => return Err(Stop::Err(n.into())) } } Some(RV::V(r)) }
        "load" if p[2] == "relative" => { let ad = bin(Op::Add, v(0), sext(v(1), 64)); let d = ex.load(st, ad, 4)?; Some(RV::V(bin(Op::Add, v(0), sext(d, 64)))) }
        "objectsize" => Some(RV::V(c(rt.width(), !0))),
        "fma" | "fmuladd" if a.iter().all(|x| x.v().is_c()) && v(0).w == 64 => { let f = |i: usize| f64::from_bits(v(i).v as u64); Some(RV::V(c(64, f(0).mul_add(f(1), f(2)).to_bits() as u128))) }
        "pow" | "log" | "log2" | "log10" | "exp" | "powi" if v(0).is_c() && v(0).w == 64 => { let f = f64::from_bits(v(0).v as u64); let r = match p[1] { "log" => f.ln(), "log2" => f.log2(), "log10" => f.log10(), "exp" => f.exp(), "powi" => f.powi(v(1).v as i32), _ => f.powf(f64::from_bits(v(1).v as u64)) }; Some(RV::V(c(64, r.to_bits() as u128))) }
        _ => return Err(Stop::Err(format!("intrinsic {}", n))),
    })
}

// ------------------------------------------------------------------ threads
pub fn yield_now(st: &mut State) { // spin hint: let another runnable thread go
    let n = st.th.len();
    for k in 1..n { let j = (st.cur + k) % n; if st.th[j].stat == TStat::Run { st.th[st.cur].yielded = true; st.cur = j; return } }
}
/// number of choices -> concrete choice (a schedule variable decided by the solver-forked path)
fn choose(ex: &mut Exec, st: &mut State, n: u64, sched: bool) -> R<u64> {
    if n <= 1 { return Ok(0) }
    // two-phase: the variable is created once (fork_pending) so that retries reuse it
    let v = if let Some(k) = st.fork_pending { from_e(k as E) } else {
        let nm = if sched { format!("sched{}", st.sched.len()) } else { format!("choice{}", st.nd.len()) };
        let v = fresh(&nm, 8);
        let lim = bin(Op::Ult, v, c(8, n as u128));
        ex.assume(st, lim)?;
        st.fork_pending = Some(v.e as u64);
        v
    };
    let x = ex.concretize(st, v)? as u64;
    st.fork_pending = None;
    if sched { st.sched.push(v) } else { st.nd.push(("choice".into(), vec![v])) }
    Ok(x)
}
/// called when the current thread cannot run
pub fn schedule(ex: &mut Exec, st: &mut State) -> R<()> {
    let run: Vec<usize> = (0..st.th.len()).filter(|i| st.th[*i].stat == TStat::Run).collect();
    if !run.is_empty() {
        let k = if st.explore > 0 && run.len() > 1 { choose(ex, st, run.len() as u64, true)? as usize } else {
            // round robin
            run.iter().position(|i| *i > st.cur).unwrap_or(0) };
        st.cur = run[k];
        return Ok(())
    }
    // wake the earliest timed waiter
    let mut best: Option<(u64, usize)> = None;
    for (i, t) in st.th.iter().enumerate() { let d = match t.stat { TStat::Sleep(d) => Some(d), TStat::Futex(_, Some(d)) => Some(d), _ => None }; if let Some(d) = d.filter(|d| *d < NEVER) { if best.map(|b| d < b.0).unwrap_or(true) { best = Some((d, i)) } } }
    if let Some((d, i)) = best { st.vtime = st.vtime.max(d); if let TStat::Futex(..) = st.th[i].stat { st.th[i].wake_timeout = true } st.th[i].stat = TStat::Run; st.cur = i; return Ok(()) }
    Err(Stop::Viol("deadlock".into(), "all threads blocked".into()))
}
pub fn thread_exit(_ex: &mut Exec, st: &mut State, v: Option<RV>) -> R<()> {
    if st.cur == 0 { return Err(Stop::End) }
    let c = st.cur;
    st.th[c].stat = TStat::Done;
    st.th[c].ret = v.and_then(|x| if let RV::V(x) = x { x.cv() } else { None }).unwrap_or(0) as u64;
    for t in st.th.iter_mut() { if t.stat == TStat::Join(c) { t.stat = TStat::Run } }
    Ok(())
}

enum Fault { No, Fail, Crash }
/// The disk refuses an operation, or the process dies at it (vx_fs_fault).  What a store keeps below its own directory is left alone.
fn fault(ex: &mut Exec, st: &mut State, n: &'static str, a: &[RV]) -> R<Fault> {
    let at = |i: usize| -> u64 { match &a[i] { RV::V(v) => v.v as u64, _ => 0 } };
    let f = st.fs.clone();
    let file = |p: &str| matches!(f.nodes.get(p), Some(FNode::File(_)));
    let path = match n {
        "open64" | "open" => { let p = { let s = ex.cstr(st, a[0].v())?; st.fs.abs(&s) }; let fl = at(1); if if file(&p) { fl & 0o1000 != 0 } else { !f.is_dir(&p) && fl & 0o100 != 0 && f.parent_ok(&p) } { p } else { return Ok(Fault::No) } }
        "mkdir" => { let p = { let s = ex.cstr(st, a[0].v())?; st.fs.abs(&s) }; if f.is_dir(&p) || file(&p) || !f.parent_ok(&p) { return Ok(Fault::No) } p }
        "rename" => { let p = { let s = ex.cstr(st, a[0].v())?; st.fs.abs(&s) }; if !f.nodes.contains_key(&p) { return Ok(Fault::No) } p }
        "unlink" => { let p = { let s = ex.cstr(st, a[0].v())?; st.fs.abs(&s) }; if !file(&p) { return Ok(Fault::No) } p }
        "write" | "ftruncate64" | "ftruncate" | "fsync" | "fdatasync" => match f.fds.get(&at(0)) { Some(d) if d.wr => d.path.clone(), _ => return Ok(Fault::No) },
        _ => return Ok(Fault::No),
    };
    if path.contains("/storage/") || path.contains("/indexer/") { return Ok(Fault::No) }
    let (left, mode, part) = f.fault.unwrap();
    let g = Rc::make_mut(&mut st.fs);
    if left > 0 { g.fault = Some((left - 1, mode, part)); return Ok(Fault::No) }
    g.hit = true;
    if mode != 1 { g.fault = None }
    if mode < 2 { return Ok(Fault::Fail) }
    if n == "write" { let w = part.min(at(2)); if w > 0 { builtin_(ex, st, n, &[a[0].clone(), a[1].clone(), RV::V(c64(w))])?; } }
    // the process is gone: back to where the harness began it
    st.th.truncate(1); st.cur = 0; st.th[0].stat = TStat::Run; st.th[0].wake_timeout = false;
    if !st.th[0].frames.iter().any(|f| f.catch) { return Err(Stop::Err("crash outside vx_catch".into())) }
    loop { let fr = ex.pop_frame(st); if fr.catch { break } }
    ex.ret_to_caller(st, Some(RV::V(cw32(1))));
    Ok(Fault::Crash)
}
fn errno(ex: &mut Exec, st: &mut State, e: u32) -> R<()> { if st.errno == 0 { st.errno = st.mem.alloc(8, false) } ex.store(st, c64(st.errno), cw32(e as u64), 4) }

pub fn builtin(ex: &mut Exec, st: &mut State, n: &'static str, a: &[RV]) -> R<()> {
    if st.fs.fault.is_some() { match fault(ex, st, n, a)? { Fault::No => {} Fault::Fail => { errno(ex, st, 28)?; let r = if n == "write" { c64(!0) } else { cw32(0xffff_ffff) }; ex.ret_to_caller(st, Some(RV::V(r))); return Ok(()) } Fault::Crash => return Ok(()) } }
    match builtin_(ex, st, n, a)? { Some(r) => { ex.ret_to_caller(st, r); Ok(()) } None => Ok(()) }
}
fn r64(v: u64) -> R<Option<Option<RV>>> { Ok(Some(Some(RV::V(c64(v))))) }
fn r32(v: u32) -> R<Option<Option<RV>>> { Ok(Some(Some(RV::V(c(32, v as u128))))) }
fn rv() -> R<Option<Option<RV>>> { Ok(Some(None)) }
macro_rules! fail32 { ($ex:expr,$st:expr,$e:expr) => {{ errno($ex, $st, $e)?; return r32(!0) }} }
macro_rules! fail64 { ($ex:expr,$st:expr,$e:expr) => {{ errno($ex, $st, $e)?; return r64(!0) }} }

fn symbytes(ex: &mut Exec, st: &mut State, p: Val, n: u64) -> R<()> {
    if let Some(q) = &mut ex.opt.concrete { if q.is_empty() { return Err(Stop::Err("concrete input exhausted".into())) } let b = q.remove(0); for (i, x) in b.iter().enumerate() { ex.store(st, bin(Op::Add, p, c64(i as u64)), c(8, *x as u128), 1)? } return Ok(()) }
    let k = st.nd.len();
    let mut vs = vec![]; let mut i = 0;
    while i < n { let ch = (n - i).min(8); let v = fresh(&format!("n{}_{}", k, i), (ch * 8) as u16); ex.store(st, bin(Op::Add, p, c64(i)), v, ch)?; vs.push(v); i += ch }
    st.nd.push(("bytes".into(), vs));
    Ok(())
}
fn new_futex_wait(ex: &mut Exec, st: &mut State, addr: Val, val: Val, deadline: Option<u64>) -> R<Option<Option<RV>>> {
    let ad = ex.concretize(st, addr)? as u64;
    let cur = st.cur;
    if st.th[cur].wake_timeout { st.th[cur].wake_timeout = false; fail64!(ex, st, 110) }
    let x = ex.load(st, c64(ad), 4)?;
    let e = bin(Op::Eq, x, trunc(val, 32));
    if !ex.decide(st, e)? { fail64!(ex, st, 11) }
    // complete the call now (result 0) and block; a timeout rewrites nothing (callers re-check state)
    ex.ret_to_caller(st, Some(RV::V(c64(0))));
    st.th[cur].stat = TStat::Futex(ad, deadline);
    Ok(None)
}

fn builtin_(ex: &mut Exec, st: &mut State, n: &'static str, a: &[RV]) -> R<Option<Option<RV>>> {
    let v = |i: usize| -> Val { a[i].v() };
    macro_rules! k { ($i:expr) => {{ let x = v($i); ex.concretize(st, x)? as u64 }} }
    macro_rules! idstr { ($p:expr,$l:expr) => {{ let l = k!($l); let b = ex.bytes(st, v($p), l)?; String::from_utf8_lossy(&b).into_owned() }} }
    match n {
        // ---------------- harness primitives
        n if n.contains("detect_and_initialize") => Ok(Some(Some(RV::V(c(128, 0))))),
        "vx_bytes" => { let len = k!(1); symbytes(ex, st, v(0), len)?; rv() }
        "vx_assume" => { ex.assume(st, v(0))?; rv() }
        "vx_assert" => {
            let id = idstr!(1, 2);
            let g = v(0);
            *ex.out.reach.entry(format!("assert:{}", id)).or_default() += 1;
            if g.is_c() && g.v == 1 { return rv() }
            let bad = not(g);
            match ex.sv.check(&st.pc, bad, &st.model) {
                crate::solver::Res::Sat(m) => { let mut s2 = st.clone(); ex.add_pc(&mut s2, bad); s2.model = m.clone(); let w = ex.where_(&s2); ex.record(&s2, &id, &format!("assertion {} violated [{}]", id, w), &m); }
                crate::solver::Res::Unsat => {}
                crate::solver::Res::Unknown => { ex.out.incomplete += 1; *ex.out.errs.entry(format!("solver gave no answer for assertion {}", id)).or_default() += 1; }
            }
            ex.assume(st, g)?; rv()
        }
        "vx_reach" => { let id = idstr!(0, 1); ex.witness(st, &id); rv() }
        "vx_choose" => { let lim = k!(0);
            if let Some(q) = &mut ex.opt.concrete { let b = q.remove(0); return r64(b[0] as u64) }
            let x = choose(ex, st, lim, false)?; if lim <= 1 { st.nd.push(("choice".into(), vec![c(8, 0)])) } r64(x) }
        "vx_concrete" => { let x = k!(0); r64(x) }
        "vx_is_symbolic" => r32(if ex.opt.concrete.is_some() { 0 } else { 1 }),
        "vx_catch" => { let f = k!(0); match ex.m.fn_at(f) { Some(id) => { ex.push_frame(st, id, vec![RV::V(v(1))], true); Ok(None) } None => Err(Stop::Err("vx_catch".into())) } }
        "vx_note" => { let s = idstr!(0, 1); Rc::make_mut(&mut st.notes).push(s); rv() }
        "vx_print" => { let m = st.model.val(v(0)); eprintln!("vx_print {} (sym={})", m, !v(0).is_c()); rv() }
        "vx_time" => { st.now = (v(0), v(1)); rv() }
        "vx_live_heap" => { let l = st.mem.live_heap() as u64; r64(l) }
        "vx_fs_short_writes" => { let b = k!(0); Rc::make_mut(&mut st.fs).short_writes = b != 0; rv() }
        "vx_args" => { let (n, p) = (k!(0), v(1)); let id = (0..ex.m.fns.len()).find(|i| ex.m.fns[*i].name.contains("ARGV_INIT_ARRAY") && ex.m.fns[*i].body.is_some()).ok_or(Stop::Err("vx_args".into()))?;
            ex.push_frame(st, id as u32, vec![RV::V(cw32(n)), RV::V(p), RV::V(c64(0))], false); Ok(None) }
        "vx_exited" => { let e = st.exited; r32(e) }
        "vx_fs_fault" => { let (n, m, p) = (k!(0), k!(1), k!(2)); let f = Rc::make_mut(&mut st.fs); let h = f.hit; f.hit = false; f.fault = if m < 3 { Some((n, m, p)) } else { None }; r32(h as u32) }
        "vx_explore" => { st.explore = 1; st.preempt = k!(0) as u32; rv() }
        "vx_yield" => {
            if st.explore == 0 || st.preempt == 0 { return rv() }
            let others: Vec<usize> = (0..st.th.len()).filter(|i| *i != st.cur && st.th[*i].stat == TStat::Run).collect();
            if others.is_empty() { return rv() }
            let x = choose(ex, st, others.len() as u64 + 1, true)?;
            ex.ret_to_caller(st, None);
            if x > 0 { st.preempt -= 1; st.cur = others[x as usize - 1]; }
            Ok(None)
        }
        "vx_block" => { ex.ret_to_caller(st, None); let c = st.cur; st.th[c].stat = TStat::Futex(0, None); Ok(None) }
        "vx_wake" => { for t in st.th.iter_mut() { if let TStat::Futex(0, _) = t.stat { t.stat = TStat::Run } } rv() }
        // ---------------- memory
        "malloc" => { let s = k!(0); let p = st.mem.alloc(s.max(1), true); r64(p) }
        "calloc" => { let s = k!(0) * k!(1); let p = st.mem.alloc(s.max(1), true); r64(p) }
        "posix_memalign" => { let s = k!(2); let p = st.mem.alloc(s.max(1), true); ex.store(st, v(0), c64(p), 8)?; r32(0) }
        "aligned_alloc" => { let s = k!(1); let p = st.mem.alloc(s.max(1), true); r64(p) }
        "free" => { let p = k!(0); if p != 0 { if !st.mem.free(p >> SHIFT) { return Err(Stop::Err("invalid free".into())) } } rv() }
        "realloc" => { let p = k!(0); let s = k!(1); let np = if p == 0 { st.mem.alloc(s.max(1), true) } else {
                let old = ex.obj(st, p >> SHIFT)?.clone(); let mut o = Obj::new(s.max(1), true); let m = old.size.min(s.max(1)) as usize;
                o.data[..m].copy_from_slice(&old.data[..m]); if old.has_sym() { o.sym = vec![0; s.max(1) as usize]; o.sym[..m].copy_from_slice(&old.sym[..m]) }
                st.mem.free(p >> SHIFT); st.mem.put_new(o) }; r64(np) }
        "memcmp" => { let r = ex.memcmp(st, v(0), v(1), v(2), false)?; Ok(Some(Some(RV::V(r)))) }
        "bcmp" => { let r = ex.memcmp(st, v(0), v(1), v(2), true)?; Ok(Some(Some(RV::V(r)))) }
        "memcpy" | "memmove" => { ex.memcpy(st, v(0), v(1), v(2))?; Ok(Some(Some(RV::V(v(0))))) }
        "memset" => { ex.memset(st, v(0), v(1), v(2))?; Ok(Some(Some(RV::V(v(0))))) }
        "strlen" => { let s = ex.cstr(st, v(0))?; r64(s.len() as u64) }
        "memchr" | "memrchr" => { let len = k!(2); let needle = trunc(v(1), 8); let rev = n == "memrchr";
            let mut r = c64(0); let idx: Vec<u64> = if rev { (0..len).collect() } else { (0..len).rev().collect() };
            for i in idx { let b = ex.load(st, bin(Op::Add, v(0), c64(i)), 1)?; r = ite(bin(Op::Eq, b, needle), bin(Op::Add, v(0), c64(i)), r) } Ok(Some(Some(RV::V(r)))) }
        // the end of a process of its own, as far as the harness caught it
        "exit" if st.th[st.cur].frames.iter().any(|f| f.catch) => { let x = k!(0); st.exited = x as u32 + 1; ex.raise(st, "exit", format!("exit {}", x as u32))?; Ok(None) }
        "abort" | "_exit" | "exit" => { let w = ex.where_(st); Err(Stop::Viol("abort".into(), format!("process {} [{}]", n, w))) }
        "__errno_location" => { if st.errno == 0 { st.errno = st.mem.alloc(8, false) } r64(st.errno) }
        // ---------------- clock / random / misc
        "clock_gettime" => { let clk = k!(0); let (s, ns) = if clk == 0 { (bin(Op::Add, st.now.0, c64(st.vtime / 1_000_000_000)), bin(Op::Add, st.now.1, c64(st.vtime % 1_000_000_000))) } else { (c64(1000 + st.vtime / 1_000_000_000), c64(st.vtime % 1_000_000_000)) };
            let p = v(1); ex.store(st, p, s, 8)?; ex.store(st, bin(Op::Add, p, c64(8)), ns, 8)?; r32(0) }
        "getrandom" => { let len = k!(1); for i in 0..len { let f = Rc::make_mut(&mut st.fs); f.rnd = f.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let b = (f.rnd >> 33) as u8; ex.store(st, bin(Op::Add, v(0), c64(i)), c(8, b as u128), 1)?; } r64(len) }
        "getenv" | "secure_getenv" => r64(0),
        "getpid" => r32(42), "getuid" | "geteuid" => r32(0), "gnu_get_libc_version" => r64(0),
        "sysconf" => { let w = k!(0); r64(match w { 30 => 4096, 84 | 83 => 4, _ => 1 }) }
        "getauxval" | "dlsym" => r64(0), "sched_getaffinity" => { let len = k!(1); ex.memset(st, v(2), c(8, 0), c64(len))?; ex.store(st, v(2), c(8, 15), 1)?; r32(0) }
        "sched_yield" => { ex.ret_to_caller(st, Some(RV::V(cw32(0)))); yield_now(st); Ok(None) }
        "sigaltstack" | "sigaction" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_attr_setguardsize" | "pthread_setname_np" | "pthread_sigmask" | "sigemptyset" | "pthread_detach" | "pthread_attr_getguardsize" | "mprotect" | "munmap" | "poll" | "atexit" | "__cxa_atexit" | "isatty" | "signal" | "prctl" | "pthread_attr_setdetachstate" => if n == "signal" { r64(0) } else { r32(0) },
        "pthread_getattr_np" => r32(1), "pthread_atfork" => r32(0), "__pthread_get_minstack" => r64(16384),
        "mmap64" | "mmap" => { let l = k!(1); let p = st.mem.alloc(l, false); r64(p) }
        "__xpg_strerror_r" => { let p = v(1); ex.store(st, p, c(8, b'E' as u128), 1)?; ex.store(st, bin(Op::Add, p, c64(1)), c(8, 0), 1)?; r32(0) }
        "_Unwind_Backtrace" => r32(5), "dl_iterate_phdr" => r32(0),
        // ---------------- threads
        "pthread_self" => r64(st.cur as u64 + 1),
        "pthread_create" => { let f = k!(2); let arg = v(3); let id = ex.m.fn_at(f).ok_or(Stop::Err("pthread_create".into()))?;
            let me = st.cur; let tid = st.th.len();
            ex.store(st, v(0), c64(tid as u64 + 1), 8)?;
            st.th.push(Thread { frames: vec![], stat: TStat::Run, tls: Default::default(), ret: 0, wake_timeout: false, keys: Default::default(), dtors: Default::default(), yielded: false });
            st.cur = tid; ex.push_frame(st, id, vec![RV::V(arg)], false); st.cur = me;
            r32(0) }
        "pthread_join" => { let t = k!(0) as usize - 1; if st.th[t].stat == TStat::Done { let r = st.th[t].ret; let p = k!(1); if p != 0 { ex.store(st, c64(p), c64(r), 8)? } r32(0) } else { let c = st.cur; st.th[c].stat = TStat::Join(t); Err(Stop::Retry) } }
        "pthread_key_create" => { st.nkeys += 1; ex.store(st, v(0), cw32(st.nkeys), 4)?; r32(0) }
        "pthread_key_delete" => r32(0),
        "pthread_setspecific" => { let kk = k!(0); let c = st.cur; Rc::make_mut(&mut st.th[c].keys).insert(kk, v(1)); r32(0) }
        "pthread_getspecific" => { let kk = k!(0); let c = st.cur; let x = st.th[c].keys.get(&kk).copied().unwrap_or(c64(0)); Ok(Some(Some(RV::V(x)))) }
        "nanosleep" | "clock_nanosleep" => { let p = if n == "nanosleep" { v(0) } else { v(2) }; let s = ex.load(st, p, 8)?; let ns = ex.load(st, bin(Op::Add, p, c64(8)), 8)?; let (s, ns) = (ex.concretize(st, s)? as u64, ex.concretize(st, ns)? as u64);
            let d = if n == "clock_nanosleep" && k!(1) == 1 { s.saturating_sub(1000).saturating_mul(1_000_000_000).saturating_add(ns) } else { st.vtime.saturating_add(s.saturating_mul(1_000_000_000)).saturating_add(ns) };
            ex.ret_to_caller(st, Some(RV::V(cw32(0)))); let c = st.cur; st.th[c].stat = TStat::Sleep(d); Ok(None) }
        "syscall" => { let nr = k!(0);
            match nr {
                202 => { let op = k!(2) & 0x7f;
                    match op {
                        0 | 9 => { let dl = { let tp = k!(4); if tp == 0 { None } else { let s = ex.load(st, c64(tp), 8)?; let ns = ex.load(st, c64(tp + 8), 8)?; let (s, ns) = (ex.concretize(st, s)? as u64, ex.concretize(st, ns)? as u64);
                                Some(if op == 9 { s.saturating_sub(1000).saturating_mul(1_000_000_000).saturating_add(ns) } else { st.vtime.saturating_add(s.saturating_mul(1_000_000_000)).saturating_add(ns) }) } };
                            if let Some(d) = dl { if d <= st.vtime { fail64!(ex, st, 110) } }
                            new_futex_wait(ex, st, v(1), v(3), dl) }
                        1 | 10 => { let ad = k!(1); let mut m = k!(3) & 0xffffffff; let mut w = 0; for t in st.th.iter_mut() { if m == 0 { break } if let TStat::Futex(x, _) = t.stat { if x == ad { t.stat = TStat::Run; m -= 1; w += 1 } } } r64(w) }
                        _ => Err(Stop::Err(format!("futex op {}", op))),
                    } }
                318 => builtin_(ex, st, "getrandom", &a[1..]),
                186 => r64(st.cur as u64 + 100), 326 | 332 => fail64!(ex, st, 38),
                _ => Err(Stop::Err(format!("syscall {}", nr))),
            } }
        // ---------------- file system model
        "chdir" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; if !st.fs.is_dir(&p) { fail32!(ex, st, 2) } Rc::make_mut(&mut st.fs).cwd = p; r32(0) }
        "getcwd" => { let d = if st.fs.cwd.is_empty() { "/w".to_string() } else { st.fs.cwd.clone() } + "\0"; for (i, b) in Fs::name(&d).iter().enumerate() { ex.store(st, bin(Op::Add, v(0), c64(i as u64)), c(8, *b as u128), 1)? } Ok(Some(Some(RV::V(v(0))))) }
        "open64" | "open" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; let fl = k!(1); let f = Rc::make_mut(&mut st.fs);
            let acc = fl & 3; let dir = f.is_dir(&p);
            if dir { if acc != 0 { fail32!(ex, st, 21) } let id = f.newid(); f.fds.insert(id, Fd { ino: 0, off: 0, append: false, path: p, dir: true, rd: true, wr: false }); return r32(id as u32) }
            if fl & 0o200000 != 0 { let e = if f.nodes.contains_key(&p) { 20 } else { 2 }; fail32!(ex, st, e) }
            let ino = match f.nodes.get(&p) {
                Some(FNode::File(i)) => { if fl & 0o300 == 0o300 { fail32!(ex, st, 17) } let i = *i; if fl & 0o1000 != 0 { f.inodes.insert(i, Rc::new(Obj::new(0, false))); } i }
                _ => { if fl & 0o100 == 0 || !f.parent_ok(&p) { fail32!(ex, st, 2) } let i = f.newid(); f.nodes.insert(p.clone(), FNode::File(i)); f.inodes.insert(i, Rc::new(Obj::new(0, false))); i } };
            let f = Rc::make_mut(&mut st.fs);
            let id = f.newid(); f.fds.insert(id, Fd { ino, off: 0, append: fl & 0o2000 != 0, path: p, dir: false, rd: acc != 1, wr: acc != 0 }); r32(id as u32) }
        "close" => { let d = k!(0); Rc::make_mut(&mut st.fs).fds.remove(&d); r32(0) }
        "write" => { let d = k!(0); if d == 1 || d == 2 { let l = v(2); return Ok(Some(Some(RV::V(l)))) }
            let len = k!(2); let fd = match st.fs.fds.get(&d) { Some(f) if f.wr => f.clone(), _ => fail64!(ex, st, 9) };
            let mut wl = len;
            if st.fs.short_writes && len > 1 { wl = 1 + choose(ex, st, len, false)?; }
            let mut bs = vec![]; for i in 0..wl { bs.push(ex.load(st, bin(Op::Add, v(1), c64(i)), 1)?) }
            let f = Rc::make_mut(&mut st.fs); let mut o = (**f.inodes.get(&fd.ino).unwrap()).clone();
            let off = if fd.append { o.size } else { fd.off };
            grow(&mut o, off + wl); for (i, b) in bs.into_iter().enumerate() { o.set_byte(off as usize + i, b) }
            f.inodes.insert(fd.ino, Rc::new(o)); f.fds.get_mut(&d).unwrap().off = off + wl; r64(wl) }
        "read" => { let d = k!(0); let len = k!(2); let fd = match st.fs.fds.get(&d) { Some(f) if f.rd && !f.dir => f.clone(), Some(f) if f.dir => fail64!(ex, st, 21), _ => fail64!(ex, st, 9) };
            let o = st.fs.inodes.get(&fd.ino).unwrap().clone(); let m = o.size.saturating_sub(fd.off).min(len);
            for i in 0..m { ex.store(st, bin(Op::Add, v(1), c64(i)), o.byte((fd.off + i) as usize), 1)? }
            Rc::make_mut(&mut st.fs).fds.get_mut(&d).unwrap().off += m; r64(m) }
        "lseek64" | "lseek" => { let d = k!(0); let o = k!(1) as i64; let wh = k!(2); let f = Rc::make_mut(&mut st.fs); let sz = f.fds.get(&d).and_then(|x| f.inodes.get(&x.ino)).map(|x| x.size).unwrap_or(0);
            let fd = match f.fds.get_mut(&d) { Some(x) => x, None => fail64!(ex, st, 9) };
            let b = match wh { 0 => 0, 1 => fd.off as i64, _ => sz as i64 }; if b + o < 0 { fail64!(ex, st, 22) } fd.off = (b + o) as u64; let r = fd.off; r64(r) }
        "ftruncate64" | "ftruncate" => { let d = k!(0); let l = k!(1); let f = Rc::make_mut(&mut st.fs); let ino = match f.fds.get(&d) { Some(x) => x.ino, None => fail32!(ex, st, 9) }; let mut o = (**f.inodes.get(&ino).unwrap()).clone(); if l < o.size { o.data.truncate(l as usize); if o.has_sym() { o.sym.truncate(l as usize) } o.size = l } else { grow(&mut o, l) } f.inodes.insert(ino, Rc::new(o)); r32(0) }
        "sendfile64" | "sendfile" | "splice" | "copy_file_range" => fail64!(ex, st, 38),
        "fsync" | "fdatasync" | "syncfs" | "fchmod" | "chmod" | "flock" => r32(0),
        "fcntl" => { let c = k!(1); if c == 1030 || c == 0 { let d = k!(0); let f = Rc::make_mut(&mut st.fs); let x = f.fds.get(&d).cloned(); match x { Some(x) => { let id = f.newid(); f.fds.insert(id, x); r32(id as u32) } None => fail32!(ex, st, 9) } } else { r32(0) } }
        "mkdir" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; let f = Rc::make_mut(&mut st.fs); if f.is_dir(&p) || f.nodes.contains_key(&p) { fail32!(ex, st, 17) } if !f.parent_ok(&p) { fail32!(ex, st, 2) } f.nodes.insert(p, FNode::Dir); r32(0) }
        "rmdir" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; let f = Rc::make_mut(&mut st.fs); if !f.is_dir(&p) { fail32!(ex, st, 2) } if !f.list(&p).is_empty() { fail32!(ex, st, 39) } f.nodes.remove(&p); r32(0) }
        "unlink" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; let f = Rc::make_mut(&mut st.fs); match f.nodes.get(&p) { Some(FNode::File(_)) => { f.nodes.remove(&p); r32(0) } Some(_) => fail32!(ex, st, 21), None => fail32!(ex, st, 2) } }
        "rename" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; let q = { let s = ex.cstr(st, v(1))?; st.fs.abs(&s) }; let f = Rc::make_mut(&mut st.fs); if !f.nodes.contains_key(&p) { fail32!(ex, st, 2) }
            let ks: Vec<String> = f.nodes.keys().filter(|k| **k == p || k.starts_with(&format!("{}/", p))).cloned().collect(); for k in ks { let x = f.nodes.remove(&k).unwrap(); f.nodes.insert(format!("{}{}", q, &k[p.len()..]), x); } r32(0) }
        "opendir" | "fdopendir" => { let p = if n == "opendir" { { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) } } else { let d = k!(0); st.fs.fds.get(&d).map(|x| x.path.clone()).unwrap_or_default() };
            if !st.fs.is_dir(&p) { let e = if st.fs.nodes.contains_key(&p) { 20 } else { 2 }; errno(ex, st, e)?; return r64(0) }
            let mut l = vec![(".".to_string(), true), ("..".to_string(), true)]; l.extend(st.fs.list(&p)); let h = st.mem.alloc(16, true); Rc::make_mut(&mut st.fs).dirs.insert(h, (l, 0)); r64(h) }
        "readdir64" | "readdir" => { let h = k!(0); let f = Rc::make_mut(&mut st.fs); let d = f.dirs.get_mut(&h).ok_or(Stop::Err("readdir".into()))?; if d.1 >= d.0.len() { return r64(0) } let (nm, isd) = d.0[d.1].clone(); d.1 += 1;
            let mut o = Obj::new(280, true); o.data[0] = 1; o.data[16] = (280u32 & 255) as u8; o.data[17] = 1; o.data[18] = if isd { 4 } else { 8 }; let nm = Fs::name(&nm); o.data[19..19 + nm.len()].copy_from_slice(&nm); let p = st.mem.put_new(o); r64(p) }
        "closedir" => { let h = k!(0); Rc::make_mut(&mut st.fs).dirs.remove(&h); r32(0) }
        "dirfd" => r32(9),
        "stat64" | "lstat64" | "stat" | "lstat" | "fstat64" | "fstat" => {
            let node = if n.starts_with('f') { let d = k!(0); match st.fs.fds.get(&d) { Some(f) => Some(if f.dir { FNode::Dir } else { FNode::File(f.ino) }), None => None } } else { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; if st.fs.is_dir(&p) { Some(FNode::Dir) } else { st.fs.nodes.get(&p).cloned() } };
            let (mode, size) = match node { None => fail32!(ex, st, 2), Some(FNode::Dir) => (0o040755u64, 4096), Some(FNode::File(i)) => (0o100644, st.fs.inodes.get(&i).map(|o| o.size).unwrap_or(0)) };
            let p = v(1); ex.memset(st, p, c(8, 0), c64(144))?; ex.store(st, bin(Op::Add, p, c64(24)), cw32(mode), 4)?; ex.store(st, bin(Op::Add, p, c64(48)), c64(size), 8)?; r32(0) }
        "access" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; if st.fs.is_dir(&p) || st.fs.nodes.contains_key(&p) { r32(0) } else { fail32!(ex, st, 2) } }
        "realpath" => { let p = { let s = ex.cstr(st, v(0))?; st.fs.abs(&s) }; if !(st.fs.is_dir(&p) || st.fs.nodes.contains_key(&p)) { errno(ex, st, 2)?; return r64(0) } let mut o = Obj::new(p.len() as u64 + 1, true); o.data[..p.len()].copy_from_slice(p.as_bytes()); let h = st.mem.put_new(o); r64(h) }
        _ => Err(Stop::Err(format!("unmodelled external function {}", n))),
    }
}
fn grow(o: &mut Obj, n: u64) { if n > o.size { o.data.resize(n as usize, 0); if o.has_sym() { o.sym.resize(n as usize, 0) } o.size = n } }
