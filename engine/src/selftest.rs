//! Differential self-test of the simplifier and of the Z3 translation against the concrete evaluator.
use crate::expr::*;
use crate::solver::*;
use std::rc::Rc;
struct Rng(u64);
impl Rng { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } fn u(&mut self, k: u64) -> u64 { self.n() % k } }
/// builds a random expression together with its value under the assignment, computed independently on plain integers
fn gen(r: &mut Rng, vars: &[(Val, u128)], w: u16, d: u32) -> (Val, u128) {
    if d == 0 || r.u(8) == 0 {
        if r.u(3) == 0 { let k = match r.u(5) { 0 => 0, 1 => !0u128, 2 => 1, 3 => 1u128 << r.u(w as u64), _ => r.n() as u128 } & mask(w); return (c(w, k), k) }
        let (v, x) = vars[r.u(vars.len() as u64) as usize];
        return if v.w == w { (v, x) } else if v.w > w { let lo = r.u((v.w - w + 1) as u64) as u16; (extract(v, lo + w - 1, lo), (x >> lo) & mask(w)) } else if r.u(2) == 0 { (zext(v, w), x) } else { (sext(v, w), sx(x, v.w) as u128 & mask(w)) };
    }
    let m = mask(w);
    match r.u(20) {
        0 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (bin(Op::Add, a, b), x.wrapping_add(y) & m) }
        1 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (bin(Op::Sub, a, b), x.wrapping_sub(y) & m) }
        2 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (bin(Op::And, a, b), x & y) }
        3 | 19 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (bin(Op::Or, a, b), x | y) }
        4 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (bin(Op::Xor, a, b), x ^ y) }
        5 => { let (a, x) = gen(r, vars, w, d - 1); let k = r.u(w as u64 + 2) as u128; (bin(Op::Shl, a, c(w, k & m)), if (k & m) >= w as u128 { 0 } else { x << (k & m) & m }) }
        6 => { let (a, x) = gen(r, vars, w, d - 1); let k = (r.u(w as u64 + 2) as u128) & m; (bin(Op::LShr, a, c(w, k)), if k >= w as u128 { 0 } else { x >> k }) }
        7 => { let (a, x) = gen(r, vars, w, d - 1); let k = (r.u(w as u64 + 2) as u128) & m; (bin(Op::AShr, a, c(w, k)), (sx(x, w) >> k.min(w as u128 - 1)) as u128 & m) }
        8 => { let (g, t) = gen(r, vars, 1, d - 1); let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (ite(g, a, b), if t == 1 { x } else { y }) }
        9 if w > 1 => { let k = 1 + r.u(w as u64 - 1) as u16; let (a, x) = gen(r, vars, w - k, d - 1); let (b, y) = gen(r, vars, k, d - 1); (concat(a, b), x << k | y) }
        10 if w < 64 => { let (a, x) = gen(r, vars, w + 8, d - 1); let lo = r.u(9) as u16; (extract(a, lo + w - 1, lo), x >> lo & m) }
        11 if w > 8 => { let (a, x) = gen(r, vars, w - 7, d - 1); (zext(a, w), x) }
        12 if w > 8 => { let (a, x) = gen(r, vars, w - 7, d - 1); (sext(a, w), sx(x, w - 7) as u128 & m) }
        13 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); (bin(Op::Mul, a, b), x.wrapping_mul(y) & m) }
        14 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); if y == 0 { return (a, x) } (bin(Op::UDiv, bin(Op::Or, a, c(w, 0)), b), x / y) }
        15 => { let (a, x) = gen(r, vars, w, d - 1); let (b, y) = gen(r, vars, w, d - 1); if y == 0 { return (a, x) } (bin(Op::URem, a, b), x % y) }
        16 | 17 | 18 => { let ww = [1u16, 8, 13, 32, 64][r.u(5) as usize]; let (a, x) = gen(r, vars, ww, d - 1); let (b, y) = gen(r, vars, ww, d - 1);
            let (q, t) = match r.u(5) { 0 => (bin(Op::Eq, a, b), x == y), 1 => (bin(Op::Ult, a, b), x < y), 2 => (bin(Op::Ule, a, b), x <= y), 3 => (bin(Op::Slt, a, b), sx(x, ww) < sx(y, ww)), _ => (bin(Op::Sle, a, b), sx(x, ww) <= sx(y, ww)) };
            (zext(q, w), t as u128) }
        _ => { let (a, x) = gen(r, vars, w, d - 1); (not(a), !x & m) }
    }
}
pub fn run(n: u64) -> i32 {
    let mut r = Rng(88172645463325252);
    let vars: Vec<Val> = [8u16, 16, 32, 64, 1, 8, 64].iter().enumerate().map(|(i, w)| fresh(&format!("x{}", i), *w)).collect();
    let mut sv = Solver::new(20000);
    let mut bad = 0; let mut zq = 0;
    for i in 0..n {
        let asg: Vec<(Val, u128)> = vars.iter().map(|v| { let x = match r.u(4) { 0 => 0, 1 => !0u128, 2 => 1u128 << r.u(v.w as u64), _ => r.n() as u128 }; (*v, x & mask(v.w)) }).collect();
        let w = [1u16, 8, 16, 32, 64, 24][r.u(6) as usize];
        let (e, x) = gen(&mut r, &asg, w, 5);
        let m = Model::new(asg.iter().map(|(v, x)| (v.e, *x)).collect());
        if m.val(e) != x { bad += 1; if bad < 5 { eprintln!("MISMATCH {:#x} vs {:#x}: {}", m.val(e), x, show(e.e, 9)); } }
        // Z3: pinning the variables must force the value
        if i % 10 == 0 && !e.is_c() {
            zq += 1;
            let pc: Vec<E> = asg.iter().map(|(v, x)| bin(Op::Eq, *v, c(v.w, *x))).filter(|v| !v.is_c()).map(|v| v.e).collect();
            let mr = Rc::new(m);
            let ne = not(bin(Op::Eq, e, c(w, x)));
            let base = Rc::new(Model::new(Default::default())); let _ = mr;
            match sv.check(&pc, ne, &base) { Res::Unsat => {} Res::Sat(_) => { if base.val(ne) != 1 { bad += 1; eprintln!("Z3 MISMATCH {}", show(e.e, 9)) } } Res::Unknown => { eprintln!("unknown") } }
        }
    }
    println!("selftest: {} expressions, {} solver cross-checks, {} mismatches", n, zq, bad);
    if bad == 0 { 0 } else { 1 }
}
