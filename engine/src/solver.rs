//! Z3 back end: translation of the expression DAG, constraint slicing, query caching.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) { eprintln!("z3 error code {}", code); Z3ERR.store(true, std::sync::atomic::Ordering::Relaxed); }
static Z3ERR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub ms: f64, pub max_ms: f64, pub cached: u64, pub model_hits: u64, pub fp_queries: u64 }

pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

pub struct Solver {
    ctx: P, bv: HashMap<E, P, BuildFx>, bl: HashMap<E, P, BuildFx>, hasfp: HashMap<E, bool, BuildFx>,
    pub st: Stats, params: P, qfbv: P, qffp: P,
    cache: HashMap<Vec<E>, Option<Vec<(E, u128)>>>,
    pub timeout_ms: u32, pub dump: Option<String>,
}

impl Solver {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            let a = CString::new("QF_BV").unwrap(); let b = CString::new("QF_FPBV").unwrap();
            let qfbv = Z3_mk_string_symbol(ctx, a.as_ptr()); let qffp = Z3_mk_string_symbol(ctx, b.as_ptr());
            Solver { ctx, bv: Default::default(), bl: Default::default(), hasfp: Default::default(), st: Stats::default(), params, qfbv, qffp, cache: Default::default(), timeout_ms, dump: None }
        }
    }
    fn is_fp(&mut self, e: E) -> bool {
        if e == 0 { return false }
        if let Some(b) = self.hasfp.get(&e) { return *b }
        let n = *node(e);
        let r = (n.op as u8) >= (Op::FAdd as u8) || self.is_fp(n.a) || self.is_fp(n.b) || self.is_fp(n.c);
        self.hasfp.insert(e, r);
        r
    }
    fn tobool(&mut self, e: E) -> P {
        if let Some(p) = self.bl.get(&e) { return *p }
        let n = *node(e); let x = self.ctx;
        let r = unsafe { match n.op {
            Op::Eq => { if node(n.a).w == 1 { let (a, b) = (self.tobool(n.a), self.tobool(n.b)); Z3_mk_eq(x, a, b) } else { let (a, b) = (self.tobv(n.a), self.tobv(n.b)); Z3_mk_eq(x, a, b) } }
            Op::Ult => { let (a, b) = (self.tobv(n.a), self.tobv(n.b)); Z3_mk_bvult(x, a, b) }
            Op::Ule => { let (a, b) = (self.tobv(n.a), self.tobv(n.b)); Z3_mk_bvule(x, a, b) }
            Op::Slt => { let (a, b) = (self.tobv(n.a), self.tobv(n.b)); Z3_mk_bvslt(x, a, b) }
            Op::Sle => { let (a, b) = (self.tobv(n.a), self.tobv(n.b)); Z3_mk_bvsle(x, a, b) }
            Op::FEq => { let (a, b) = (self.tofp(n.a), self.tofp(n.b)); Z3_mk_fpa_eq(x, a, b) }
            Op::FLt => { let (a, b) = (self.tofp(n.a), self.tofp(n.b)); Z3_mk_fpa_lt(x, a, b) }
            Op::FLe => { let (a, b) = (self.tofp(n.a), self.tofp(n.b)); Z3_mk_fpa_leq(x, a, b) }
            Op::And => { let v = [self.tobool(n.a), self.tobool(n.b)]; Z3_mk_and(x, 2, v.as_ptr()) }
            Op::Or => { let v = [self.tobool(n.a), self.tobool(n.b)]; Z3_mk_or(x, 2, v.as_ptr()) }
            Op::Xor => { let (a, b) = (self.tobool(n.a), self.tobool(n.b)); let q = Z3_mk_eq(x, a, b); Z3_mk_not(x, q) }
            Op::Ite => { let (a, b, d) = (self.tobool(n.a), self.tobool(n.b), self.tobool(n.c)); Z3_mk_ite(x, a, b, d) }
            _ => { let a = self.tobv(e); let one = Z3_mk_unsigned_int64(x, 1, Z3_mk_bv_sort(x, 1)); Z3_mk_eq(x, a, one) }
        } };
        self.bl.insert(e, r);
        r
    }
    fn tofp(&mut self, e: E) -> P { let w = node(e).w; let b = self.tobv(e); unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, b, if w == 64 { Z3_mk_fpa_sort_64(self.ctx) } else { Z3_mk_fpa_sort_32(self.ctx) }) } }
    fn fps(&self, w: u16) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.ctx) } else { Z3_mk_fpa_sort_32(self.ctx) } } }
    fn tobv(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e) { return *p }
        let n = *node(e); let x = self.ctx;
        macro_rules! b2 { ($f:ident) => {{ let (a, b) = (self.tobv(n.a), self.tobv(n.b)); $f(x, a, b) }} }
        macro_rules! f2 { ($f:ident) => {{ let (a, b) = (self.tofp(n.a), self.tofp(n.b)); let r = $f(x, Z3_mk_fpa_rne(x), a, b); Z3_mk_fpa_to_ieee_bv(x, r) }} }
        macro_rules! ri { ($rm:expr) => {{ let a = self.tofp(n.a); let r = Z3_mk_fpa_round_to_integral(x, $rm, a); Z3_mk_fpa_to_ieee_bv(x, r) }} }
        let r = unsafe { match n.op {
            Op::Const => if n.w <= 64 { Z3_mk_unsigned_int64(x, n.k as u64, Z3_mk_bv_sort(x, n.w as c_uint)) }
                else { let s = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(x, s.as_ptr(), Z3_mk_bv_sort(x, n.w as c_uint)) },
            Op::Var => { let s = CString::new(format!("v{}", n.k)).unwrap(); Z3_mk_const(x, Z3_mk_string_symbol(x, s.as_ptr()), Z3_mk_bv_sort(x, n.w as c_uint)) }
            Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
            Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
            Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
            Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => {
                let g = self.tobool(e); let s = Z3_mk_bv_sort(x, 1);
                Z3_mk_ite(x, g, Z3_mk_unsigned_int64(x, 1, s), Z3_mk_unsigned_int64(x, 0, s)) }
            Op::Ite => { let g = self.tobool(n.a); let (a, b) = (self.tobv(n.b), self.tobv(n.c)); Z3_mk_ite(x, g, a, b) }
            Op::Concat => b2!(Z3_mk_concat),
            Op::Extract => { let a = self.tobv(n.a); Z3_mk_extract(x, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a) }
            Op::ZExt => { let a = self.tobv(n.a); Z3_mk_zero_ext(x, (n.w - node(n.a).w) as c_uint, a) }
            Op::SExt => { let a = self.tobv(n.a); Z3_mk_sign_ext(x, (n.w - node(n.a).w) as c_uint, a) }
            Op::FAdd => f2!(Z3_mk_fpa_add), Op::FSub => f2!(Z3_mk_fpa_sub), Op::FMul => f2!(Z3_mk_fpa_mul), Op::FDiv => f2!(Z3_mk_fpa_div),
            Op::FRem => panic!("frem on symbolic operands is not encoded"),
            Op::UiToFp => { let a = self.tobv(n.a); let s = self.fps(n.w); let r = Z3_mk_fpa_to_fp_unsigned(x, Z3_mk_fpa_rne(x), a, s); Z3_mk_fpa_to_ieee_bv(x, r) }
            Op::SiToFp => { let a = self.tobv(n.a); let s = self.fps(n.w); let r = Z3_mk_fpa_to_fp_signed(x, Z3_mk_fpa_rne(x), a, s); Z3_mk_fpa_to_ieee_bv(x, r) }
            Op::FpToUi => { let a = self.tofp(n.a); Z3_mk_fpa_to_ubv(x, Z3_mk_fpa_rtz(x), a, n.w as c_uint) }
            Op::FpToSi => { let a = self.tofp(n.a); Z3_mk_fpa_to_sbv(x, Z3_mk_fpa_rtz(x), a, n.w as c_uint) }
            Op::FpExt | Op::FpTrunc => { let a = self.tofp(n.a); let s = self.fps(n.w); let r = Z3_mk_fpa_to_fp_float(x, Z3_mk_fpa_rne(x), a, s); Z3_mk_fpa_to_ieee_bv(x, r) }
            Op::FFloor => ri!(Z3_mk_fpa_rtn(x)), Op::FCeil => ri!(Z3_mk_fpa_rtp(x)), Op::FTruncI => ri!(Z3_mk_fpa_rtz(x)),
            Op::FRoundEven => ri!(Z3_mk_fpa_rne(x)), Op::FRoundAway => ri!(Z3_mk_fpa_rna(x)),
            Op::FSqrt => { let a = self.tofp(n.a); let r = Z3_mk_fpa_sqrt(x, Z3_mk_fpa_rne(x), a); Z3_mk_fpa_to_ieee_bv(x, r) }
        } };
        self.bv.insert(e, r);
        r
    }

    /// Is `pc /\ cond` satisfiable?  `base` is a model of pc (used to complete the answer outside the slice).
    pub fn check(&mut self, pc: &[E], cond: Val, base: &Rc<Model>) -> Res {
        if cond.is_c() { return if cond.v == 1 { Res::Sat(base.clone()) } else { Res::Unsat } }
        if base.val(cond) == 1 { self.st.model_hits += 1; return Res::Sat(base.clone()) }
        // slice
        let mut vars: std::collections::HashSet<E, BuildFx> = Default::default();
        for v in vars_of(cond.e).iter() { vars.insert(*v); }
        let mut used = vec![false; pc.len()];
        let mut sl: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (i, p) in pc.iter().enumerate() {
                if used[i] { continue }
                let vs = vars_of(*p);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true; sl.push(*p); ch = true;
                    for v in vs.iter() { vars.insert(*v); }
                }
            }
            if !ch { break }
        }
        sl.sort(); sl.push(cond.e);
        if let Some(r) = self.cache.get(&sl) {
            self.st.cached += 1;
            return match r { None => Res::Unsat, Some(m) => Res::Sat(self.complete(m, base)) };
        }
        let fp = sl.iter().any(|e| self.is_fp(*e));
        let t0 = Instant::now();
        let asserts: Vec<P> = sl.iter().map(|e| self.tobool(*e)).collect();
        unsafe {
            let s = Z3_mk_solver_for_logic(self.ctx, if fp { self.qffp } else { self.qfbv });
            Z3_solver_inc_ref(self.ctx, s);
            Z3_solver_set_params(self.ctx, s, self.params);
            for a in asserts { Z3_solver_assert(self.ctx, s, a) }
            if let Some(d) = &self.dump { let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.st.queries), format!("(set-logic {})\n{}\n(check-sat)\n", if fp { "QF_FPBV" } else { "QF_BV" }, txt)); }
            let r = Z3_solver_check(self.ctx, s);
            let ms = t0.elapsed().as_secs_f64() * 1000.0;
            self.st.queries += 1; self.st.ms += ms; if ms > self.st.max_ms { self.st.max_ms = ms } if fp { self.st.fp_queries += 1 }
            if Z3ERR.load(std::sync::atomic::Ordering::Relaxed) { Z3_solver_dec_ref(self.ctx, s); self.st.unknown += 1; return Res::Unknown }
            let out = match r {
                -1 => { self.st.unsat += 1; self.cache.insert(sl, None); Res::Unsat }
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut part = vec![];
                    for v in vars.iter() {
                        let a = self.tobv(*v); let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            let t = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap().parse::<u128>().unwrap();
                            part.push((*v, t));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    let md = self.complete(&part, base);
                    // self-check: the solver's assignment must satisfy the slice under our own evaluator
                    if sl.iter().any(|e| md.eval(*e) != 1) { eprintln!("solver/evaluator disagreement"); self.st.unknown += 1; Res::Unknown }
                    else { self.cache.insert(sl, Some(part)); Res::Sat(md) }
                }
                _ => { self.st.unknown += 1; Res::Unknown }
            };
            Z3_solver_dec_ref(self.ctx, s);
            out
        }
    }
    fn complete(&self, part: &[(E, u128)], base: &Rc<Model>) -> Rc<Model> {
        let mut v = base.vals.clone();
        for (k, x) in part { v.insert(*k, *x); }
        Rc::new(Model::new(v))
    }
}
