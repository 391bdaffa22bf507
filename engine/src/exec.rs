//! Path-forking symbolic interpreter over the IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub fn weak_modelled(n: &str) -> bool { matches!(n, "getrandom") }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub b: B, pub i: usize, pub prev: B, pub regs: Vec<RV>, pub allocas: Vec<u64>, pub catch: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum TStat { Run, Futex(u64, Option<u64>), Sleep(u64), Join(usize), Done }
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub stat: TStat, pub tls: Rc<BTreeMap<u32, u64>>, pub ret: u64, pub wake_timeout: bool, pub keys: Rc<BTreeMap<u64, Val>>, pub dtors: Rc<Vec<(u64, Val)>>, pub yielded: bool }

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>, pub cur: usize, pub mem: Mem, pub pc: Vec<E>, pub model: Rc<Model>,
    pub nd: Vec<(Rc<str>, Vec<Val>)>, pub sched: Vec<Val>, pub preempt: u32, pub explore: u32,
    pub steps: u64, pub depth: u32, pub fs: Rc<crate::env::Fs>, pub now: (Val, Val), pub vtime: u64, pub notes: Rc<Vec<String>>, pub errno: u64, pub nkeys: u64,
    pub fork_pending: Option<u64>, pub crashes: u32, pub enumc: u32, pub exited: u32,
}

#[derive(Debug)]
pub enum Stop { Kill, End, Viol(String, String), Err(String), Retry }
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation { pub id: String, pub msg: String, pub nd: Vec<(String, Vec<u8>)>, pub sched: Vec<u64>, pub trace: Vec<String> }

#[derive(Default, Clone)]
pub struct Out {
    pub viol: Vec<Violation>, pub errs: BTreeMap<String, u64>, pub paths: u64, pub killed: u64, pub ends: u64, pub insts: u64, pub incomplete: u64,
    pub reach: BTreeMap<String, u64>, pub max_depth: u32, pub solver: Stats, pub forks: u64, pub ends_kept: Vec<(Vec<(String, Vec<u8>)>, Vec<u64>)>, pub witness: BTreeMap<String, Vec<(String, Vec<u8>)>>,
    pub viol_seen: BTreeMap<String, u64>,
}

pub struct Exec {
    pub m: Module, pub sv: Solver, pub queue: Vec<State>, pub out: Out,
    pub kinds: Vec<u8>, pub cov: Vec<bool>, pub fcov: Vec<bool>,
    pub opt: Opts, pub t0: Instant, pub gcache: HashMap<u64, Rc<Obj>>, pub shared: Option<crate::par::Shared>,
}
#[derive(Clone)]
pub struct Opts { pub max_steps: u64, pub deadline: f64, pub max_viol: usize, pub trace: bool, pub concrete: Option<Vec<Vec<u8>>>, pub max_enum: u32 }

// kinds: 0 unknown, 1 plain, 2 builtin, 3 panic
impl Exec {
    pub fn new(m: Module, timeout_ms: u32, opt: Opts) -> Exec {
        let n = m.fns.len();
        Exec { m, sv: Solver::new(timeout_ms), queue: vec![], out: Out::default(), kinds: vec![0; n], cov: vec![], fcov: vec![false; n], opt, t0: Instant::now(), gcache: HashMap::new(), shared: None }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let id = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("no entry function {}", entry));
        let f = self.m.func(id);
        let mem = Mem::new(self.m.first_free());
        let fr = Frame { regs: vec![RV::N; f.nregs as usize], f, b: 0, i: 0, prev: 0, allocas: vec![], catch: false };
        State { th: vec![Thread { frames: vec![fr], stat: TStat::Run, tls: Default::default(), ret: 0, wake_timeout: false, keys: Default::default(), dtors: Default::default(), yielded: false }], cur: 0, mem, pc: vec![], model: Rc::new(Model::new(Default::default())), nd: vec![], sched: vec![], preempt: 0, explore: 0, steps: 0, depth: 0,
            fs: Default::default(), now: (c64(1_700_000_000), c64(0)), vtime: 0, notes: Default::default(), errno: 0, nkeys: 0, fork_pending: None, crashes: 0, enumc: 0, exited: 0 }
    }
    fn kind(&mut self, id: u32) -> u8 {
        let k = self.kinds[id as usize];
        if k != 0 { return k }
        let fe = &self.m.fns[id as usize];
        let n = fe.name;
        let k = if (n.contains("4core9panicking") && !n.contains("unreachable_display")) || n.contains("rust_begin_unwind") || n.contains("_3std9panicking11begin_panic") || n.contains("3std9panicking13panic_handler") || n.contains("handle_alloc_error") { 3 }
            else if crate::env::is_builtin(n) || fe.body.is_none() { 2 } else { 1 };
        self.kinds[id as usize] = k; k
    }
    // ------------------------------------------------------------ deciding
    pub fn decide(&mut self, st: &mut State, cond: Val) -> R<bool> {
        if cond.is_c() { return Ok(cond.v == 1) }
        let nc = not(cond);
        for p in st.pc.iter().rev() { if *p == cond.e { return Ok(true) } if *p == nc.e { return Ok(false) } }
        let mv = st.model.val(cond) == 1;
        let (here, other) = if mv { (cond, nc) } else { (nc, cond) };
        match self.sv.check(&st.pc, other, &st.model) {
            Res::Unsat => {}
            Res::Sat(m2) => {
                let mut s2 = st.clone();
                self.add_pc(&mut s2, other); s2.model = m2; s2.depth += 1;
                self.add_pc(st, here); st.depth += 1;
                self.out.forks += 1;
                self.queue.push(s2);
            }
            Res::Unknown => { self.out.incomplete += 1; self.add_pc(st, here); }
        }
        Ok(mv)
    }
    pub fn add_pc(&mut self, st: &mut State, c: Val) {
        if c.is_c() { return }
        // split conjunctions for better slicing
        let n = *node(c.e);
        if n.op == Op::And && n.w == 1 { self.add_pc(st, from_e(n.a)); self.add_pc(st, from_e(n.b)); return }
        if !st.pc.contains(&c.e) { st.pc.push(c.e) }
    }
    /// true if cond holds on every assignment of the current path
    pub fn must(&mut self, st: &State, cond: Val) -> R<bool> {
        if cond.is_c() { return Ok(cond.v == 1) }
        if st.model.val(cond) == 0 { return Ok(false) }
        match self.sv.check(&st.pc, not(cond), &st.model) { Res::Unsat => Ok(true), Res::Sat(_) => Ok(false), Res::Unknown => { self.out.incomplete += 1; Ok(false) } }
    }
    pub fn assume(&mut self, st: &mut State, cond: Val) -> R<()> {
        if cond.is_c() { return if cond.v == 1 { Ok(()) } else { Err(Stop::Kill) } }
        match self.sv.check(&st.pc, cond, &st.model) {
            Res::Sat(m) => { st.model = m; self.add_pc(st, cond); Ok(()) }
            Res::Unsat => Err(Stop::Kill),
            Res::Unknown => { self.out.incomplete += 1; Err(Stop::Kill) }
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: Val) -> R<u128> {
        if v.is_c() { return Ok(v.v) }
        st.enumc += 1;
        let x = st.model.val(v);
        let r = self.decide(st, bin(Op::Eq, v, c(v.w, x)))?;
        if r { Ok(x) } else { Err(Stop::Err("concretize".into())) }
    }
    // ------------------------------------------------------------ memory
    pub fn obj<'a>(&mut self, st: &'a mut State, idx: u64) -> R<&'a Rc<Obj>> {
        if st.mem.get(idx).is_none() && idx < st.mem.base && idx > self.m.fns.len() as u64 {
            let o = self.materialise(idx)?;
            st.mem.set_global(idx, o);
        }
        st.mem.get(idx).ok_or_else(|| Stop::Err(format!("access to unallocated object {:#x}", idx)))
    }
    fn materialise(&mut self, idx: u64) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&idx) { return Ok(o.clone()) }
        let gid = (idx - self.m.fns.len() as u64 - 1) as u32;
        let (t, init) = self.m.glob_init(gid);
        let mut o = Obj::new(t.size().max(1), false);
        if let Some(i) = init { write_rv(&mut o, 0, &t, &i) }
        else if self.m.globs[gid as usize].name != "environ" { return Err(Stop::Err(format!("external global {}", self.m.globs[gid as usize].name))) }
        let o = Rc::new(o);
        self.gcache.insert(idx, o.clone());
        Ok(o)
    }
    /// Resolve an address to (object, offset value) such that [off, off+n) is inside the object; forks when it may point elsewhere.
    fn resolve(&mut self, st: &mut State, a: Val, n: u64) -> R<(u64, Val)> {
        if a.is_c() {
            let ad = a.v as u64; let idx = ad >> SHIFT; let off = ad & ((1 << SHIFT) - 1);
            let sz = self.obj(st, idx)?.size;
            if off + n > sz { return Err(Stop::Err(format!("out-of-bounds access: object size {} offset {} len {} ({})", sz, off, n, self.where_(st)))) }
            return Ok((idx, c64(off)))
        }
        let ad = st.model.val(a) as u64; let idx = ad >> SHIFT;
        let sz = self.obj(st, idx)?.size;
        let base = idx << SHIFT;
        if n > sz { return Err(Stop::Err(format!("out-of-bounds symbolic access ({})", self.where_(st)))) }
        let off = bin(Op::Sub, a, c64(base));
        let ok = bin(Op::Ule, off, c64(sz - n));
        if !self.decide(st, ok)? { return Err(Stop::Err(format!("out-of-bounds symbolic access ({})", self.where_(st)))) }
        Ok((idx, off))
    }
    pub fn load(&mut self, st: &mut State, a: Val, n: u64) -> R<Val> {
        if n == 0 { return Ok(c(0, 0)) }
        let (idx, off) = self.resolve(st, a, n)?;
        if off.is_c() { return Ok(self.obj(st, idx)?.read(off.v as usize, n as usize)) }
        let o = self.obj(st, idx)?.clone();
        // off = start + x
        let (start, x) = add_const(off);
        let (start, x) = if (start as u128) + umax(x) < 1 << 40 { (start, x) } else { (0, off) };
        let tz = (!kz(x)).trailing_zeros().min(16); let stride = 1u64 << tz;
        let lo = start + umin(x) as u64 / stride * stride; let hi = (start + umax(x) as u64).min(o.size - n);
        let cells = if hi >= lo { (hi - lo) / stride + 1 } else { 1 };
        if cells > 1024 { let v = self.concretize(st, off)?; return Ok(o.read(v as usize, n as usize)) }
        // a table that is linear over xor (checksums): the xor of the entries of the index's bits
        if cells >= 16 && cells.is_power_of_two() && lo == start && umax(x) as u64 / stride + 1 == cells {
            let t: Vec<Val> = (0..cells).map(|k| o.read((start + k * stride) as usize, n as usize)).collect();
            if t.iter().all(|v| v.is_c()) && (1..cells as usize).all(|k| { let b = 1usize << k.trailing_zeros(); k == b || t[k].v == t[k ^ b].v ^ t[b].v ^ t[0].v }) {
                let w = (n * 8) as u16;
                let mut r = t[0];
                for b in 0..cells.trailing_zeros() {
                    let bit = extract(x, (tz + b) as u16, (tz + b) as u16);
                    let m = t[1usize << b].v ^ t[0].v;
                    r = bin(Op::Xor, r, bin(Op::And, sext(bit, w), c(w, m)));
                }
                return Ok(r)
            }
        }
        // group equal values
        let mut groups: Vec<(Val, Vec<u64>)> = vec![]; let mut gi: HashMap<Val, usize> = HashMap::new();
        let mut k = lo;
        while k <= hi {
            let v = o.read(k as usize, n as usize);
            let g = *gi.entry(v).or_insert_with(|| { groups.push((v, vec![])); groups.len() - 1 });
            groups[g].1.push(k);
            k += stride;
        }
        // largest group is the default
        let d = groups.iter().enumerate().max_by_key(|(_, g)| g.1.len()).map(|x| x.0).unwrap();
        let mut r = groups[d].0;
        for (i, (v, ks)) in groups.iter().enumerate() {
            if i == d { continue }
            let mut g = cb(false);
            // contiguous runs -> range comparisons
            let mut j = 0;
            while j < ks.len() { let s = ks[j]; let mut e = s; while j + 1 < ks.len() && ks[j + 1] == e + stride { e = ks[j + 1]; j += 1 } j += 1;
                let t = if s == e { bin(Op::Eq, off, c64(s)) } else { bin(Op::And, bin(Op::Ule, c64(s), off), bin(Op::Ule, off, c64(e))) };
                g = bin(Op::Or, g, t); }
            r = ite(g, *v, r);
        }
        Ok(r)
    }
    pub fn store(&mut self, st: &mut State, a: Val, v: Val, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (idx, off) = self.resolve(st, a, n)?;
        let off = if off.is_c() { off.v as u64 } else {
            let sz = self.obj(st, idx)?.size;
            if sz <= 64 && n <= 8 {
                let lo = umin(off) as u64; let hi = (umax(off) as u64).min(sz - n);
                let tz = (!kz(off)).trailing_zeros().min(16); let stride = 1u64 << tz;
                let o = st.mem.get_mut(idx).unwrap();
                let mut k = (lo + stride - 1) / stride * stride;
                while k <= hi { let old = o.read(k as usize, n as usize); let nv = ite(bin(Op::Eq, off, c64(k)), zext(v, (n * 8) as u16), old); o.write(k as usize, nv, n as usize); k += stride }
                return Ok(());
            }
            self.concretize(st, off)? as u64 };
        self.obj(st, idx)?;
        st.mem.get_mut(idx).unwrap().write(off as usize, v, n as usize);
        Ok(())
    }
    pub fn load_ty(&mut self, st: &mut State, a: Val, t: &Ty) -> R<RV> {
        Ok(match t {
            Ty::Int(w) => { let n = (*w as u64 + 7) / 8; let v = self.load(st, a, n)?; RV::V(trunc(v, *w)) }
            Ty::Ptr | Ty::F64 => RV::V(self.load(st, a, 8)?), Ty::F32 => RV::V(self.load(st, a, 4)?),
            Ty::Vec(n, et) | Ty::Arr(n, et) => {
                if matches!(t, Ty::Vec(..)) && et.is_scalar() && et.width() < 8 {
                    let nb = t.size(); let v = self.load(st, a, nb)?; let w = et.width();
                    return Ok(RV::A(Rc::new((0..*n).map(|i| RV::V(extract(v, (i as u16 + 1) * w - 1, i as u16 * w))).collect())))
                }
                let s = et.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load_ty(st, bin(Op::Add, a, c64(i * s)), et)?) } RV::A(Rc::new(v)) }
            Ty::St(f, _) => { let (l, _) = t.layout(); let mut v = vec![]; for (i, ft) in f.iter().enumerate() { v.push(self.load_ty(st, bin(Op::Add, a, c64(l[i])), ft)?) } RV::A(Rc::new(v)) }
            _ => return Err(Stop::Err(format!("load of {:?}", t))),
        })
    }
    pub fn store_ty(&mut self, st: &mut State, a: Val, t: &Ty, v: &RV) -> R<()> {
        match t {
            Ty::Int(w) => { let n = (*w as u64 + 7) / 8; self.store(st, a, zext(v.v(), (n * 8) as u16), n) }
            Ty::Ptr | Ty::F64 => self.store(st, a, v.v(), 8), Ty::F32 => self.store(st, a, v.v(), 4),
            Ty::Vec(n, et) | Ty::Arr(n, et) => { let s = et.size(); let ad = if a.is_c() { a } else { c64(self.concretize(st, a)? as u64) };
                if matches!(t, Ty::Vec(..)) && et.is_scalar() && et.width() < 8 { let mut r = v.agg()[0].v(); for x in v.agg()[1..].iter() { r = concat(x.v(), r) } let nb = t.size(); return self.store(st, ad, zext(r, (nb * 8) as u16), nb) }
                for i in 0..*n { self.store_ty(st, bin(Op::Add, ad, c64(i * s)), et, &v.agg()[i as usize])? } Ok(()) }
            Ty::St(f, _) => { let (l, _) = t.layout(); let ad = if a.is_c() { a } else { c64(self.concretize(st, a)? as u64) };
                for (i, ft) in f.iter().enumerate() { self.store_ty(st, bin(Op::Add, ad, c64(l[i])), ft, &v.agg()[i])? } Ok(()) }
            _ => Err(Stop::Err(format!("store of {:?}", t))),
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: Val, s: Val, n: Val) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 { return Ok(()) }
        let d = c64(self.concretize(st, d)? as u64);
        let (di, doff) = self.resolve(st, d, n)?;
        let doff = doff.v as usize;
        if !s.is_c() {
            if n <= 16 { let mut bs = vec![]; for i in 0..n { bs.push(self.load(st, bin(Op::Add, s, c64(i)), 1)?) }
                for (i, b) in bs.into_iter().enumerate() { self.store(st, c64(d.v as u64 + i as u64), b, 1)? } return Ok(()) }
            let sc = self.concretize(st, s)?; return self.memcpy(st, d, c64(sc as u64), c64(n));
        }
        let (si, soff) = self.resolve(st, s, n)?;
        let soff = soff.v as usize; let n = n as usize;
        let so = self.obj(st, si)?.clone();
        self.obj(st, di)?;
        let o = st.mem.get_mut(di).unwrap();
        o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        let ssym = so.has_sym() && so.sym[soff..soff + n].iter().any(|e| *e != 0);
        if ssym { if o.sym.is_empty() { o.sym = vec![0; o.size as usize] } o.sym[doff..doff + n].copy_from_slice(&so.sym[soff..soff + n]); }
        else if o.has_sym() { for e in o.sym[doff..doff + n].iter_mut() { *e = 0 } }
        Ok(())
    }
    pub fn memset(&mut self, st: &mut State, d: Val, v: Val, n: Val) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 { return Ok(()) }
        let d = c64(self.concretize(st, d)? as u64);
        let (di, doff) = self.resolve(st, d, n)?;
        let o = st.mem.get_mut(di).unwrap();
        for i in 0..n { o.set_byte((doff.v as u64 + i) as usize, trunc(v, 8)) }
        Ok(())
    }
    pub fn memcmp(&mut self, st: &mut State, a: Val, b: Val, n: Val, eq_only: bool) -> R<Val> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 { return Ok(c(32, 0)) }
        let mut x = vec![]; let mut y = vec![];
        for i in 0..n { x.push(self.load(st, bin(Op::Add, a, c64(i)), 1)?); y.push(self.load(st, bin(Op::Add, b, c64(i)), 1)?); }
        if eq_only {
            let mut e = cb(true);
            // compare in words so that extracts recombine
            let mut i = 0;
            while i < x.len() { let k = (x.len() - i).min(8); let (mut p, mut q) = (x[i], y[i]); for j in 1..k { p = concat(x[i + j], p); q = concat(y[i + j], q) } e = bin(Op::And, e, bin(Op::Eq, p, q)); i += k }
            return Ok(ite(e, c(32, 0), c(32, 1)))
        }
        let mut r = c(32, 0);
        for i in (0..n as usize).rev() {
            let lt = bin(Op::Ult, x[i], y[i]); let eq = bin(Op::Eq, x[i], y[i]);
            r = ite(eq, r, ite(lt, c(32, !0), c(32, 1)));
        }
        Ok(r)
    }
    pub fn cstr(&mut self, st: &mut State, a: Val) -> R<Vec<u8>> {
        let a = self.concretize(st, a)? as u64; let mut v = vec![]; let mut i = 0;
        loop { let b = self.load(st, c64(a + i), 1)?; let b = self.concretize(st, b)? as u8; if b == 0 { return Ok(v) } v.push(b); i += 1 }
    }
    pub fn bytes(&mut self, st: &mut State, a: Val, n: u64) -> R<Vec<u8>> { let mut v = vec![]; for i in 0..n { let b = self.load(st, bin(Op::Add, a, c64(i)), 1)?; v.push(self.concretize(st, b)? as u8) } Ok(v) }
    pub fn where_(&self, st: &State) -> String {
        let t = &st.th[st.cur];
        let mut s = String::new();
        for f in t.frames.iter().rev().take(8) { s += &format!("{}@{}:{} < ", short(f.f.name), f.b, f.i) }
        s
    }
    // ------------------------------------------------------------ main loop
    #[inline] fn opd(&self, st: &State, o: &Opd) -> RV { match o { Opd::K(v) => v.clone(), Opd::R(r) => st.th[st.cur].frames.last().unwrap().regs[*r as usize].clone() } }
    #[inline] fn ov(&self, st: &State, o: &Opd) -> R<Val> { match o { Opd::K(RV::V(v)) => Ok(*v), Opd::R(r) => match &st.th[st.cur].frames.last().unwrap().regs[*r as usize] { RV::V(v) => Ok(*v), x => Err(Stop::Err(format!("scalar operand expected, got {:?} in {}", x, self.where_(st)))) }, _ => Err(Stop::Err("scalar operand".into())) } }
    fn fr<'a>(&self, st: &'a mut State) -> &'a mut Frame { let c = st.cur; st.th[c].frames.last_mut().unwrap() }
    fn set(&self, st: &mut State, dst: u32, v: RV) { if dst != u32::MAX { let f = self.fr(st); f.regs[dst as usize] = v; } }
    fn jump(&self, st: &mut State, b: B) {
        let c = st.cur;
        let fr = st.th[c].frames.last_mut().unwrap();
        let f = fr.f.clone();
        let prev = fr.b;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (_, inc) in &blk.phis {
                let o = &inc.iter().find(|x| x.0 == prev).expect("phi predecessor").1;
                vals.push(match o { Opd::K(v) => v.clone(), Opd::R(r) => fr.regs[*r as usize].clone() });
            }
            for ((d, _), v) in blk.phis.iter().zip(vals) { fr.regs[*d as usize] = v }
        }
        fr.prev = prev; fr.b = b; fr.i = 0;
    }
    pub fn push_frame(&mut self, st: &mut State, id: u32, args: Vec<RV>, catch: bool) {
        self.fcov[id as usize] = true;
        let f = self.m.func(id);
        let mut regs = vec![RV::N; f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a }
        let c = st.cur;
        st.th[c].frames.push(Frame { f, b: 0, i: 0, prev: 0, regs, allocas: vec![], catch });
    }
    /// Complete the call instruction at the top frame with value v
    pub fn ret_to_caller(&mut self, st: &mut State, v: Option<RV>) {
        let c = st.cur;
        let fr = st.th[c].frames.last().unwrap();
        let f = fr.f.clone(); let ins = &f.blocks[fr.b as usize].insts[fr.i];
        if let IK::Call(_, _, nb, _) = &ins.k {
            if let Some(v) = v { self.set(st, ins.dst, v) }
            match nb { Some(b) => self.jump(st, *b), None => self.fr(st).i += 1 }
        } else { panic!("return to non-call in {} thread {} of {}: {:?}", f.name, c, st.th.len(), st.th.iter().map(|t| (t.frames.len(), format!("{:?}", t.stat))).collect::<Vec<_>>()) }
    }
    pub fn pop_frame(&mut self, st: &mut State) -> Frame {
        let c = st.cur;
        let fr = st.th[c].frames.pop().unwrap();
        for a in &fr.allocas { st.mem.free(*a >> SHIFT); }
        fr
    }
    fn panic_msg(&mut self, st: &mut State, name: &str, args: &[RV]) -> String {
        // last pointer argument is usually &Location { file_ptr, file_len, line, col }
        for a in args.iter().rev() {
            if let RV::V(v) = a { if v.is_c() && v.w == 64 && (v.v >> SHIFT) > self.m.fns.len() as u128 {
                let ad = v.v as u64;
                if let Ok(o) = self.obj(st, ad >> SHIFT) { if o.size - (ad & ((1 << SHIFT) - 1)).min(o.size) == 24 && !o.has_sym() {
                    let off = (ad & ((1 << SHIFT) - 1)) as usize;
                    let (p, l, ln, col) = (o.read(off, 8).v as u64, o.read(off + 8, 8).v as u64, o.read(off + 16, 4).v, o.read(off + 20, 4).v);
                    if l < 300 && ln < 100000 { if let Ok(b) = self.bytes(st, c64(p), l) { return format!("{}:{}:{}", String::from_utf8_lossy(&b).trim_end_matches('\0'), ln, col) } }
                } }
            } }
        }
        short(name)
    }
    pub fn do_panic(&mut self, st: &mut State, name: &str, args: &[RV]) -> R<()> {
        let loc = self.panic_msg(st, name, args);
        self.raise(st, "panic", format!("panic at {} [{}]", loc, self.where_(st)))
    }
    /// unwind to the innermost vx_catch of this thread, or report
    pub fn raise(&mut self, st: &mut State, id: &str, msg: String) -> R<()> {
        let c = st.cur;
        if st.th[c].frames.iter().any(|f| f.catch) {
            loop { let fr = self.pop_frame(st); if fr.catch { break } }
            Rc::make_mut(&mut st.notes).push(msg);
            self.ret_to_caller(st, Some(RV::V(cw32(1))));
            return Ok(())
        }
        Err(Stop::Viol(id.into(), msg))
    }
    pub fn record(&mut self, st: &State, id: &str, msg: &str, model: &Model) {
        *self.out.viol_seen.entry(id.to_string()).or_default() += 1;
        if self.out.viol.iter().filter(|v| v.id == id).count() >= self.opt.max_viol { return }
        let nd = st.nd.iter().map(|(n, vs)| (n.to_string(), vs.iter().flat_map(|v| { let x = model.val(*v); (0..(v.w / 8)).map(move |i| (x >> (8 * i)) as u8) }).collect())).collect();
        let sched = st.sched.iter().map(|v| model.val(*v) as u64).collect();
        self.out.viol.push(Violation { id: id.into(), msg: msg.into(), nd, sched, trace: st.notes.to_vec() });
    }
    fn assigned(&self, st: &State, model: &Model) -> (Vec<(String, Vec<u8>)>, Vec<u64>) {
        let nd = st.nd.iter().map(|(n, vs)| (n.to_string(), vs.iter().flat_map(|v| { let x = model.val(*v); (0..(v.w / 8)).map(move |i| (x >> (8 * i)) as u8) }).collect())).collect();
        (nd, st.sched.iter().map(|v| model.val(*v) as u64).collect())
    }
    pub fn witness(&mut self, st: &State, id: &str) {
        *self.out.reach.entry(id.to_string()).or_default() += 1;
        if !self.out.witness.contains_key(id) {
            let model = &st.model;
            let nd: Vec<(String, Vec<u8>)> = st.nd.iter().map(|(n, vs)| (n.to_string(), vs.iter().flat_map(|v| { let x = model.val(*v); (0..(v.w / 8)).map(move |i| (x >> (8 * i)) as u8) }).collect())).collect();
            self.out.witness.insert(id.to_string(), nd);
        }
    }
    pub fn run_all(&mut self) {
        while let Some(st) = self.queue.pop() {
            self.run(st);
            if self.t0.elapsed().as_secs_f64() > self.opt.deadline { if !self.queue.is_empty() { self.out.incomplete += self.queue.len() as u64; *self.out.errs.entry("time limit".into()).or_default() += 1; self.queue.clear() } }
            if let Some(sh) = &self.shared { if sh.stopped() { self.queue.clear() } }
        }
    }
    pub fn run(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            match &r {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::Kill) => { self.out.killed += 1; self.out.max_depth = self.out.max_depth.max(st.depth); return }
                Err(Stop::End) => { self.out.paths += 1; self.out.ends += 1; if self.out.ends.is_power_of_two() && self.out.ends_kept.len() < 8 { let k = self.assigned(&st, &st.model); self.out.ends_kept.push(k) } self.out.max_depth = self.out.max_depth.max(st.depth); return }
                Err(Stop::Viol(id, msg)) => { self.out.paths += 1; let m = st.model.clone(); self.record(&st, id, msg, &m); return }
                Err(Stop::Err(e)) => { self.out.paths += 1; let e = if e.contains('<') { e.clone() } else { format!("{} in {}", e, self.where_(&st)) }; *self.out.errs.entry(e).or_default() += 1; return }
            }
            st.steps += 1; self.out.insts += 1;
            if st.steps > self.opt.max_steps { self.out.paths += 1; let (m, w) = (st.model.clone(), self.where_(&st)); self.record(&st, "no-end", &format!("still running after {} instructions in {}", st.steps, w), &m); return }
            // time slices: a thread that spins does not keep the others from running
            if st.th.len() > 1 && st.steps & (if st.explore == 0 { 0xfff } else { 0x3ffff }) == 0 && st.fork_pending.is_none() && matches!(r, Ok(())) {
                let n = st.th.len();
                if let Some(j) = (1..n).map(|k| (st.cur + k) % n).find(|j| st.th[*j].stat == TStat::Run) { st.cur = j }
            }
            if self.out.insts & 0xfff == 0 {
                if self.t0.elapsed().as_secs_f64() > self.opt.deadline { *self.out.errs.entry(format!("time limit in {}", self.where_(&st))).or_default() += 1; self.out.incomplete += 1; return }
                if crate::par::maybe_split(self) { return }
            }
        }
    }
    fn map2(&self, a: &RV, b: &RV, f: &dyn Fn(Val, Val) -> Val) -> RV {
        match (a, b) { (RV::A(x), RV::A(y)) => RV::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.map2(p, q, f)).collect())), _ => RV::V(f(a.v(), b.v())) }
    }
    fn map1(&self, a: &RV, f: &dyn Fn(Val) -> Val) -> RV { match a { RV::A(x) => RV::A(Rc::new(x.iter().map(|p| self.map1(p, f)).collect())), _ => RV::V(f(a.v())) } }

    fn step(&mut self, st: &mut State) -> R<()> {
        if st.th[st.cur].stat != TStat::Run { return crate::env::schedule(self, st) }
        let fr = st.th[st.cur].frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.b as usize].insts[fr.i];
        if ins.dbg != 0 { let d = ins.dbg as usize; if d >= self.cov.len() { self.cov.resize(d + 1024, false) } self.cov[d] = true; }
        if self.opt.trace { eprintln!("[{}] {}:{}:{} {:?}", st.cur, short(f.name), fr.b, fr.i, ins.k); }
        macro_rules! done { ($v:expr) => {{ let v = $v; self.set(st, ins.dst, v); self.fr(st).i += 1; return Ok(()) }} }
        match &ins.k {
            IK::Bin(op, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { if let RV::V(d) = &y { if d.is(0) { return Err(Stop::Err("division by zero (UB)".into())) } } }
                if let (RV::V(p), RV::V(q)) = (&x, &y) { done!(RV::V(bin(*op, *p, *q))) }
                done!(self.map2(&x, &y, &|p, q| bin(*op, p, q)))
            }
            IK::FBin(op, a, b) => { let (x, y) = (self.opd(st, a), self.opd(st, b)); done!(self.map2(&x, &y, &|p, q| fbin(*op, p, q))) }
            IK::FNeg(a, _) => { let x = self.opd(st, a); done!(self.map1(&x, &|p| bin(Op::Xor, p, c(p.w, 1u128 << (p.w - 1))))) }
            IK::ICmp(p, a, b) => { let (x, y) = (self.opd(st, a), self.opd(st, b)); done!(self.map2(&x, &y, &|u, v| icmp(*p, u, v))) }
            IK::FCmp(p, a, b) => { let (x, y) = (self.opd(st, a), self.opd(st, b)); done!(self.map2(&x, &y, &|u, v| fcmp(p, u, v))) }
            IK::Cast(k, a, t1, t2) => {
                let x = self.opd(st, a);
                if *k == CastK::Bit { done!(bitcast(&x, t1, t2)) }
                let ew = match t2 { Ty::Vec(_, e) => e.width(), t => t.width() };
                done!(self.map1(&x, &|v| match k {
                    CastK::Trunc => trunc(v, ew), CastK::ZExt => zext(v, ew), CastK::SExt => sext(v, ew),
                    CastK::PtrInt => if ew > v.w { zext(v, ew) } else { trunc(v, ew) },
                    CastK::FpToUi => fun(Op::FpToUi, v, ew), CastK::FpToSi => fun(Op::FpToSi, v, ew), CastK::UiToFp => fun(Op::UiToFp, v, ew), CastK::SiToFp => fun(Op::SiToFp, v, ew),
                    CastK::FpExt => fun(Op::FpExt, v, ew), CastK::FpTrunc => fun(Op::FpTrunc, v, ew), CastK::Bit => unreachable!() }))
            }
            IK::Alloca(sz, n) => { let n = self.ov(st, n)?; let n = self.concretize(st, n)? as u64; let a = st.mem.alloc((sz * n).max(1), false); self.fr(st).allocas.push(a); done!(RV::V(c64(a))) }
            IK::Load(t, a, _) => { let a = self.ov(st, a)?; let v = self.load_ty(st, a, t)?; done!(v) }
            IK::Store(t, v, a, _) => { let a = self.ov(st, a)?; let v = self.opd(st, v); self.store_ty(st, a, t, &v)?; self.fr(st).i += 1; Ok(()) }
            IK::Gep(base, off, d) => {
                let b = self.opd(st, base);
                if let RV::A(_) = b { return Err(Stop::Err("vector gep".into())) }
                let mut r = bin(Op::Add, b.v(), c(64, *off as i128 as u128));
                for (o, s) in d { let v = self.ov(st, o)?; let v = sext(v, 64); r = bin(Op::Add, r, bin(Op::Mul, v, c(64, *s as i128 as u128))) }
                done!(RV::V(r))
            }
            IK::Br(b) => { self.jump(st, *b); Ok(()) }
            IK::CondBr(g, a, b) => { let v = self.ov(st, g)?; let t = self.decide(st, v)?; self.jump(st, if t { *a } else { *b }); Ok(()) }
            IK::Switch(v, d, cs) => {
                let x = self.ov(st, v)?;
                if x.is_c() { let t = cs.iter().find(|q| q.0 == x.v).map(|q| q.1).unwrap_or(*d); self.jump(st, t); return Ok(()) }
                // follow the model's target; fork the rest
                let mv = st.model.val(x);
                let tgt = cs.iter().find(|q| q.0 == mv).map(|q| q.1);
                let cond = match tgt {
                    Some(t) => { let mut g = cb(false); for q in cs.iter().filter(|q| q.1 == t) { g = bin(Op::Or, g, bin(Op::Eq, x, c(x.w, q.0))) }
                        if t == *d { g = bin(Op::Eq, x, c(x.w, mv)) } g }
                    None => { let mut g = cb(true); for q in cs { g = bin(Op::And, g, not(bin(Op::Eq, x, c(x.w, q.0)))) } g }
                };
                if self.decide(st, cond)? { let t = tgt.unwrap_or(*d); self.jump(st, t) }
                Ok(())
            }
            IK::Ret(v) => {
                let v = v.as_ref().map(|v| self.opd(st, v));
                let fr = self.pop_frame(st);
                if st.th[st.cur].frames.is_empty() { return crate::env::thread_exit(self, st, v) }
                let v = if fr.catch { Some(RV::V(cw32(0))) } else { v };
                self.ret_to_caller(st, v);
                Ok(())
            }
            IK::Unreachable => Err(Stop::Err("unreachable executed".into())),
            IK::Select(g, a, b) => {
                let gv = self.opd(st, g); let (x, y) = (self.opd(st, a), self.opd(st, b));
                match gv {
                    RV::V(gc) => {
                        if gc.is_c() { done!(if gc.v == 1 { x } else { y }) }
                        match (&x, &y) { (RV::V(p), RV::V(q)) => done!(RV::V(ite(gc, *p, *q))),
                            (RV::N, _) | (_, RV::N) => { let t = self.decide(st, gc)?; done!(if t { x } else { y }) }
                            _ => done!(self.map2(&x, &y, &|p, q| ite(gc, p, q))) }
                    }
                    RV::A(gs) => { let r = gs.iter().enumerate().map(|(i, g)| RV::V(ite(g.v(), x.agg()[i].v(), y.agg()[i].v()))).collect(); done!(RV::A(Rc::new(r))) }
                    RV::N => Err(Stop::Err("select guard".into())),
                }
            }
            IK::ExtractV(a, ix) => { let mut v = self.opd(st, a); for i in ix { let n = v.agg()[*i as usize].clone(); v = n } done!(v) }
            IK::InsertV(a, b, ix) => { let mut v = self.opd(st, a); let x = self.opd(st, b); insert_at(&mut v, ix, x); done!(v) }
            IK::InsertE(a, b, i) => { let mut v = self.opd(st, a); let x = self.opd(st, b); let i = self.ov(st, i)?; let i = self.concretize(st, i)? as u32; insert_at(&mut v, &[i], x); done!(v) }
            IK::ExtractE(a, i) => { let v = self.opd(st, a); let i = self.ov(st, i)?; let i = self.concretize(st, i)? as usize; done!(v.agg()[i].clone()) }
            IK::Shuffle(a, b, ms) => { let (x, y) = (self.opd(st, a), self.opd(st, b)); let n = x.agg().len(); let r = ms.iter().map(|m| { let m = (*m).max(0) as usize; if m < n { x.agg()[m].clone() } else { y.agg()[m - n].clone() } }).collect(); done!(RV::A(Rc::new(r))) }
            IK::Rmw(op, a, v, t) => {
                let a = self.ov(st, a)?; let a = c64(self.concretize(st, a)? as u64); let v = self.ov(st, v)?;
                let old = self.load_ty(st, a, t)?.v();
                let nv = match &**op { "xchg" => v, "add" => bin(Op::Add, old, v), "sub" => bin(Op::Sub, old, v), "and" => bin(Op::And, old, v), "or" => bin(Op::Or, old, v), "xor" => bin(Op::Xor, old, v),
                    "nand" => not(bin(Op::And, old, v)), "umax" => ite(bin(Op::Ult, old, v), v, old), "umin" => ite(bin(Op::Ult, old, v), old, v), "max" => ite(bin(Op::Slt, old, v), v, old), "min" => ite(bin(Op::Slt, old, v), old, v), x => return Err(Stop::Err(format!("atomicrmw {}", x))) };
                self.store_ty(st, a, t, &RV::V(nv))?;
                done!(RV::V(old))
            }
            IK::CmpXchg(a, e, n, t) => {
                let a = self.ov(st, a)?; let a = c64(self.concretize(st, a)? as u64); let (e, n) = (self.ov(st, e)?, self.ov(st, n)?);
                let old = self.load_ty(st, a, t)?.v();
                let eq = bin(Op::Eq, old, e);
                let ok = self.decide(st, eq)?;
                if ok { self.store_ty(st, a, t, &RV::V(n))? }
                done!(RV::A(Rc::new(vec![RV::V(old), RV::V(cb(ok))])))
            }
            IK::Fence => { self.fr(st).i += 1; Ok(()) }
            IK::Freeze(a) => { let v = self.opd(st, a); done!(v) }
            IK::LandingPad | IK::Resume => Err(Stop::Err("unwinding is not modelled".into())),
            IK::Call(cal, args, _, rt) => {
                let av: Vec<RV> = args.iter().map(|a| self.opd(st, a)).collect();
                match cal {
                    Callee::Intr(n) => { let r = crate::env::intrinsic(self, st, n, &av, rt)?; self.ret_to_caller(st, r); if n.ends_with("sse2.pause") { crate::env::yield_now(st) } Ok(()) }
                    Callee::Asm(empty) => { if !*empty { return Err(Stop::Err("inline asm".into())) } let r = if *rt == Ty::Void { None } else { Some(av.get(0).cloned().unwrap_or(zero_of(rt))) }; self.ret_to_caller(st, r); Ok(()) }
                    Callee::Fn(id) => self.call(st, *id, av),
                    Callee::Ind(o) => { let a = self.ov(st, o)?; let a = self.concretize(st, a)? as u64;
                        match self.m.fn_at(a) { Some(id) => self.call(st, id, av), None => Err(Stop::Err(format!("indirect call to {:#x}", a))) } }
                }
            }
        }
    }
    pub fn call(&mut self, st: &mut State, id: u32, av: Vec<RV>) -> R<()> {
        match self.kind(id) {
            1 => { if st.th[st.cur].frames.len() > 2000 { return self.raise(st, "stack-overflow", format!("call depth > 2000 in {}", self.where_(st))) } self.push_frame(st, id, av, false); Ok(()) }
            3 => { let n = self.m.fns[id as usize].name; self.do_panic(st, n, &av) }
            _ => { let n = self.m.fns[id as usize].name; crate::env::builtin(self, st, n, &av) }
        }
    }
}
pub fn cw32(v: u64) -> Val { c(32, v as u128) }
fn insert_at(v: &mut RV, ix: &[u32], x: RV) {
    if ix.is_empty() { *v = x; return }
    if let RV::A(a) = v { let a = Rc::make_mut(a); insert_at(&mut a[ix[0] as usize], &ix[1..], x) } else { panic!("insertvalue") }
}
pub fn icmp(p: Pred, a: Val, b: Val) -> Val {
    match p { Pred::Eq => bin(Op::Eq, a, b), Pred::Ne => not(bin(Op::Eq, a, b)), Pred::Ult => bin(Op::Ult, a, b), Pred::Ule => bin(Op::Ule, a, b), Pred::Ugt => bin(Op::Ult, b, a), Pred::Uge => bin(Op::Ule, b, a),
        Pred::Slt => bin(Op::Slt, a, b), Pred::Sle => bin(Op::Sle, a, b), Pred::Sgt => bin(Op::Slt, b, a), Pred::Sge => bin(Op::Sle, b, a) }
}
fn fcmp(p: &str, a: Val, b: Val) -> Val {
    let uno = || bin(Op::Or, is_nan(a), is_nan(b));
    let o = |x: Val| x; let u = |x: Val| bin(Op::Or, uno(), x);
    match p {
        "oeq" => o(fbin(Op::FEq, a, b)), "olt" => fbin(Op::FLt, a, b), "ole" => fbin(Op::FLe, a, b), "ogt" => fbin(Op::FLt, b, a), "oge" => fbin(Op::FLe, b, a),
        "one" => bin(Op::And, not(uno()), not(fbin(Op::FEq, a, b))), "ord" => not(uno()), "uno" => uno(),
        "ueq" => u(fbin(Op::FEq, a, b)), "ult" => u(fbin(Op::FLt, a, b)), "ule" => u(fbin(Op::FLe, a, b)), "ugt" => u(fbin(Op::FLt, b, a)), "uge" => u(fbin(Op::FLe, b, a)), "une" => not(fbin(Op::FEq, a, b)),
        "true" => cb(true), "false" => cb(false), _ => panic!("fcmp {}", p),
    }
}
fn flat(v: &RV, out: &mut Vec<Val>) { match v { RV::A(a) => for x in a.iter() { flat(x, out) }, RV::V(x) => out.push(*x), RV::N => panic!("bitcast of void") } }
fn bitcast(v: &RV, _t1: &Ty, t2: &Ty) -> RV {
    let mut vs = vec![]; flat(v, &mut vs);
    let mut bits: Vec<Val> = vs; // little endian lanes
    match t2 {
        Ty::Vec(n, e) => {
            let ew = e.width();
            let mut out = vec![];
            if bits[0].w >= ew { for b in &bits { for k in 0..(b.w / ew) { out.push(RV::V(extract(*b, (k + 1) * ew - 1, k * ew))) } } }
            else { let per = (ew / bits[0].w) as usize; for ch in bits.chunks(per) { let mut r = ch[0]; for x in &ch[1..] { r = concat(*x, r) } out.push(RV::V(r)) } }
            assert!(out.len() == *n as usize);
            RV::A(Rc::new(out))
        }
        _ => { let mut r = bits.remove(0); for x in bits { r = concat(x, r) } RV::V(r) }
    }
}
pub fn write_rv(o: &mut Obj, off: u64, t: &Ty, v: &RV) {
    match t {
        Ty::Int(w) => { let n = (*w as usize + 7) / 8; o.write(off as usize, zext(v.v(), (n * 8) as u16), n) }
        Ty::Ptr | Ty::F64 => o.write(off as usize, v.v(), 8), Ty::F32 => o.write(off as usize, v.v(), 4),
        Ty::Vec(n, e) | Ty::Arr(n, e) => { let s = e.size(); for i in 0..*n { write_rv(o, off + i * s, e, &v.agg()[i as usize]) } }
        Ty::St(f, _) => { let (l, _) = t.layout(); for (i, ft) in f.iter().enumerate() { write_rv(o, off + l[i], ft, &v.agg()[i]) } }
        _ => {}
    }
}
/// crude v0/legacy demangling, for messages only
pub fn short(n: &str) -> String {
    let b = n.as_bytes(); let mut i = 0; let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i; while j < b.len() && b[j].is_ascii_digit() { j += 1 }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j; if s < b.len() && b[s] == b'_' { s += 1 }
            if l > 1 && s + l <= b.len() && b[s..s + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[s].is_ascii_alphabetic() | (b[s] == b'_') { parts.push(n[s..s + l].into()); i = s + l; continue }
        }
        i += 1;
    }
    if parts.is_empty() { n.chars().take(60).collect() } else { let k = parts.len(); let k0 = k.saturating_sub(4); parts[k0..].join("::") }
}
