//! Hash-consed bit-vector expression DAG with a simplifying constructor layer.
use std::cell::RefCell;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe,
    UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc,
    FFloor, FCeil, FTruncI, FRoundEven, FRoundAway, FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

/// A value: constant (e==0) or expression node.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Val { pub v: u128, pub e: E, pub w: u16 }

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.e == 0 { write!(f, "{:#x}:{}", self.v, self.w) } else { write!(f, "e{}:{}", self.e, self.w) }
    }
}

#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }
#[inline] pub fn c(w: u16, v: u128) -> Val { Val { v: v & mask(w), e: 0, w } }
#[inline] pub fn c64(v: u64) -> Val { Val { v: v as u128, e: 0, w: 64 } }
#[inline] pub fn cb(b: bool) -> Val { Val { v: b as u128, e: 0, w: 1 } }

impl Val {
    #[inline] pub fn is_c(&self) -> bool { self.e == 0 }
    #[inline] pub fn cv(&self) -> Option<u128> { if self.e == 0 { Some(self.v) } else { None } }
    #[inline] pub fn is(&self, v: u128) -> bool { self.e == 0 && self.v == v }
}

pub struct Cx {
    pub nodes: Vec<Node>,
    pub kz: Vec<u128>,
    pub ko: Vec<u128>,
    map: HashMap<Node, E, BuildFx>,
    pub var_names: Vec<String>,
    pub vars: Vec<E>,
    vs_cache: HashMap<E, std::rc::Rc<Vec<E>>, BuildFx>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
#[derive(Clone, Copy, Default)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx { type Hasher = Fx; fn build_hasher(&self) -> Fx { Fx(0) } }

static mut CXP: *mut Cx = std::ptr::null_mut();
pub fn cx() -> &'static mut Cx {
    unsafe {
        if CXP.is_null() {
            let mut x = Box::new(Cx { nodes: vec![], kz: vec![], ko: vec![], map: Default::default(), var_names: vec![], vars: vec![], vs_cache: Default::default() });
            x.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
            x.kz.push(0); x.ko.push(0);
            CXP = Box::into_raw(x);
        }
        &mut *CXP
    }
}

pub fn node(e: E) -> &'static Node { &cx().nodes[e as usize] }

pub fn to_e(v: Val) -> E {
    if v.e != 0 { return v.e }
    intern(Node { op: Op::Const, w: v.w, a: 0, b: 0, c: 0, k: v.v })
}
pub fn from_e(e: E) -> Val {
    let n = node(e);
    if n.op == Op::Const { c(n.w, n.k) } else { Val { v: 0, e, w: n.w } }
}

fn intern(n: Node) -> E {
    let x = cx();
    if let Some(e) = x.map.get(&n) { return *e }
    let id = x.nodes.len() as E;
    let (kz, ko) = known(x, &n);
    x.nodes.push(n); x.kz.push(kz); x.ko.push(ko);
    x.map.insert(n, id);
    id
}

fn known(x: &Cx, n: &Node) -> (u128, u128) {
    let m = mask(n.w);
    let z = |e: E| x.kz[e as usize];
    let o = |e: E| x.ko[e as usize];
    match n.op {
        Op::Const => (!n.k & m, n.k),
        Op::And => (z(n.a) | z(n.b), o(n.a) & o(n.b)),
        Op::Or => (z(n.a) & z(n.b), o(n.a) | o(n.b)),
        Op::Xor => ((z(n.a) & z(n.b)) | (o(n.a) & o(n.b)), (z(n.a) & o(n.b)) | (o(n.a) & z(n.b))),
        Op::ZExt => { let aw = x.nodes[n.a as usize].w; (z(n.a) | (m & !mask(aw)), o(n.a)) }
        Op::SExt => { let aw = x.nodes[n.a as usize].w; let top = 1u128 << (aw - 1); let hi = m & !mask(aw);
            let mut kz = z(n.a); let mut ko = o(n.a);
            if kz & top != 0 { kz |= hi } if ko & top != 0 { ko |= hi } (kz, ko) }
        Op::Extract => { let lo = n.k as u32; ((z(n.a) >> lo) & m, (o(n.a) >> lo) & m) }
        Op::Concat => { let bw = x.nodes[n.b as usize].w; ((z(n.a) << bw) | z(n.b), (o(n.a) << bw) | o(n.b)) }
        Op::Ite => (z(n.b) & z(n.c), o(n.b) & o(n.c)),
        Op::Add | Op::Sub => {
            let tz = (!(z(n.a) & z(n.b))).trailing_zeros().min(n.w as u32);
            let low = if tz == 0 { 0 } else { mask(tz as u16) };
            let mut kz = low;
            if n.op == Op::Add {
                let ma = !z(n.a) & m; let mb = !z(n.b) & m;
                if let Some(s) = ma.checked_add(mb) { if s <= m { let lz = 128 - s.leading_zeros(); kz |= m & !mask(lz as u16) } }
            }
            (kz, 0)
        }
        Op::Mul => {
            let ta = (!z(n.a) & m).trailing_zeros().min(n.w as u32); let tb = (!z(n.b) & m).trailing_zeros().min(n.w as u32);
            let t = (ta + tb).min(n.w as u32);
            let mut kz = if t == 0 { 0 } else { mask(t as u16) };
            let ma = !z(n.a) & m; let mb = !z(n.b) & m;
            if let Some(s) = ma.checked_mul(mb) { if s <= m { let l = 128 - s.leading_zeros(); kz |= m & !mask(l as u16) } }
            (kz, 0)
        }
        Op::UDiv => { let ma = !z(n.a) & m; let minb = o(n.b); if minb > 0 { let q = ma / minb; let l = 128 - q.leading_zeros(); (m & !mask(l as u16), 0) } else { (0, 0) } }
        Op::URem => { let mb = !z(n.b) & m; if o(n.b) > 0 { let q = (mb.saturating_sub(1)).min(!z(n.a) & m); let l = 128 - q.leading_zeros(); (m & !mask(l as u16), 0) } else { (0, 0) } }
        Op::LShr => { let ma = !z(n.a) & m; let mb = o(n.b); let q = if mb >= n.w as u128 { 0 } else { ma >> mb }; let l = 128 - q.leading_zeros(); (m & !mask(l as u16), 0) }
        _ => (0, 0),
    }
}

pub fn kz(v: Val) -> u128 { if v.e == 0 { !v.v & mask(v.w) } else { cx().kz[v.e as usize] } }
pub fn ko(v: Val) -> u128 { if v.e == 0 { v.v } else { cx().ko[v.e as usize] } }
pub fn umax(v: Val) -> u128 { !kz(v) & mask(v.w) }
pub fn umin(v: Val) -> u128 { ko(v) }

fn mk(op: Op, w: u16, a: Val, b: Val, cc: Val, k: u128) -> Val {
    let a = if a.w == 0 { 0 } else { to_e(a) };
    let b = if b.w == 0 { 0 } else { to_e(b) };
    let cc = if cc.w == 0 { 0 } else { to_e(cc) };
    let e = intern(Node { op, w, a, b, c: cc, k });
    // fully known?
    let x = cx();
    let m = mask(w);
    if w > 0 && (x.kz[e as usize] | x.ko[e as usize]) & m == m && op != Op::Const { return c(w, x.ko[e as usize]) }
    Val { v: 0, e, w }
}
const NOV: Val = Val { v: 0, e: 0, w: 0 };

pub fn fresh(name: &str, w: u16) -> Val {
    let x = cx();
    let k = x.var_names.len() as u128;
    x.var_names.push(name.to_string());
    let v = mk(Op::Var, w, NOV, NOV, NOV, k);
    x.vars.push(v.e);
    v
}

fn cfold(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y)) as u128 & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y)) as u128 & m } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sx(a, w); (if b >= w as u128 { if s < 0 { -1i128 } else { 0 } } else { s >> b }) as u128 & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128, Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => return None,
    })
}

fn ite_consts(v: Val) -> Option<(Val, Val, Val)> {
    if v.e == 0 { return None }
    let n = node(v.e);
    if n.op == Op::Ite { let (b, cc) = (from_e(n.b), from_e(n.c)); if b.is_c() && cc.is_c() { return Some((from_e(n.a), b, cc)) } }
    None
}

/// v as constant + rest
pub fn add_const(v: Val) -> (u64, Val) {
    if v.e != 0 { let n = node(v.e); if n.op == Op::Add { let (a, b) = (from_e(n.a), from_e(n.b)); if b.is_c() { return (b.v as u64, a) } if a.is_c() { return (a.v as u64, b) } } }
    (0, v)
}
pub fn not(v: Val) -> Val { bin(Op::Xor, v, c(v.w, !0)) }

pub fn bin(op: Op, a: Val, b: Val) -> Val {
    let w = a.w;
    debug_assert!(a.w == b.w, "width mismatch {:?} {:?} {:?}", op, a, b);
    let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
    if a.e == 0 && b.e == 0 { return c(rw, cfold(op, w, a.v, b.v).unwrap()) }
    // push into constant-armed ite
    if b.e == 0 { if let Some((g, x, y)) = ite_consts(a) { return ite(g, bin(op, x, b), bin(op, y, b)) } }
    if a.e == 0 { if let Some((g, x, y)) = ite_consts(b) { return ite(g, bin(op, a, x), bin(op, a, y)) } }
    let m = mask(w);
    match op {
        Op::Add => {
            if a.is(0) { return b } if b.is(0) { return a }
            if a.e == 0 { return bin(Op::Add, b, a) }
            let na = *node(a.e);
            if b.e == 0 {
                if na.op == Op::Add { let y = from_e(na.b); if y.is_c() { return bin(Op::Add, from_e(na.a), c(w, y.v.wrapping_add(b.v))) } }
            }
            if na.op == Op::Sub && to_e(b) == na.b { return from_e(na.a) }
            if b.e != 0 {
                let nb = *node(b.e);
                if nb.op == Op::Sub && a.e == nb.b { return from_e(nb.a) }
                if nb.op == Op::Add && from_e(nb.b).is_c() { return bin(Op::Add, bin(Op::Add, a, from_e(nb.a)), from_e(nb.b)) }
                if na.op == Op::Add && from_e(na.b).is_c() { return bin(Op::Add, bin(Op::Add, from_e(na.a), b), from_e(na.b)) }
            }
            if w == 1 { return bin(Op::Xor, a, b) }
            if let Some(r) = disjoint(a, b) { return r }
            if let Some(l) = Lin::of(a, b, false) { return l.build() }
            let (a, b) = if b.e != 0 && b.e < a.e { (b, a) } else { (a, b) };
            return mk(op, w, a, b, NOV, 0);
        }
        Op::Sub => {
            if b.e == 0 { return bin(Op::Add, a, c(w, b.v.wrapping_neg())) }
            if a == b { return c(w, 0) }
            if a.e != 0 { let na = *node(a.e);
                if na.op == Op::Add { if na.a == b.e { return from_e(na.b) } if na.b == b.e { return from_e(na.a) }
                    if from_e(na.b).is_c() { return bin(Op::Add, bin(Op::Sub, from_e(na.a), b), from_e(na.b)) } } }
            let nb = *node(b.e);
            if nb.op == Op::Add && from_e(nb.b).is_c() { return bin(Op::Sub, bin(Op::Sub, a, from_e(nb.b)), from_e(nb.a)) }
            if nb.op == Op::Sub && to_e(a) == nb.a { return from_e(nb.b) }
            if let Some(l) = Lin::of(a, b, true) { return l.build() }
        }
        Op::Mul => {
            if a.e == 0 { return bin(Op::Mul, b, a) }
            if b.is(0) { return b } if b.is(1) { return a }
            if b.e == 0 && b.v.is_power_of_two() { return bin(Op::Shl, a, c(w, b.v.trailing_zeros() as u128)) }
        }
        Op::UDiv => { if b.is(1) { return a } if b.e == 0 && b.v.is_power_of_two() { return bin(Op::LShr, a, c(w, b.v.trailing_zeros() as u128)) }
            if umin(b) > 0 && umax(a) < umin(b) { return c(w, 0) } }
        Op::URem => { if b.is(1) { return c(w, 0) } if b.e == 0 && b.v.is_power_of_two() { return bin(Op::And, a, c(w, b.v - 1)) }
            if umin(b) > 0 && umax(a) < umin(b) { return a } }
        Op::SDiv => { if b.is(1) { return a }
            if b.e == 0 && kz(a) >> (w - 1) & 1 == 1 && b.v >> (w - 1) == 0 { return bin(Op::UDiv, a, b) } }
        Op::SRem => { if b.e == 0 && kz(a) >> (w - 1) & 1 == 1 && b.v >> (w - 1) == 0 { return bin(Op::URem, a, b) } }
        Op::And => {
            if a.e == 0 { return bin(Op::And, b, a) }
            if b.is(0) { return b } if b.is(m) { return a } if a == b { return a }
            if b.e == 0 {
                let na = *node(a.e);
                if na.op == Op::And { let y = from_e(na.b); if y.is_c() { return bin(Op::And, from_e(na.a), c(w, y.v & b.v)) } }
                // b irrelevant bits
                if umax(a) & !b.v & m == 0 { return a }
                if umax(a) & b.v == 0 { return c(w, 0) }
                // low mask -> zext(extract)
                let k = b.v.trailing_ones() as u16;
                if k < w && b.v == mask(k) && k > 0 { return zext(extract(a, k - 1, 0), w) }
                // contiguous mask
                let t = b.v.trailing_zeros() as u16; let bb = b.v >> t; let k = bb.trailing_ones() as u16;
                if bb == mask(k) { let mid = extract(a, t + k - 1, t); let r = if t > 0 { concat(mid, c(t, 0)) } else { mid }; return zext(r, w) }
            } else {
                if w == 1 { let na = *node(a.e); let nb = *node(b.e);
                    if na.op == Op::Xor && na.a == b.e && from_e(na.b).is(1) { return c(1, 0) }
                    if nb.op == Op::Xor && nb.a == a.e && from_e(nb.b).is(1) { return c(1, 0) } }
                if umax(a) & umax(b) == 0 { return c(w, 0) }
                if b.e < a.e { return mk(op, w, b, a, NOV, 0) }
            }
        }
        Op::Or => {
            if a.e == 0 { return bin(Op::Or, b, a) }
            if b.is(0) { return a } if b.is(m) { return b } if a == b { return a }
            if b.e == 0 { let na = *node(a.e);
                if na.op == Op::Or { let y = from_e(na.b); if y.is_c() { return bin(Op::Or, from_e(na.a), c(w, y.v | b.v)) } } }
            else if w == 1 { let na = *node(a.e); let nb = *node(b.e);
                if na.op == Op::Xor && na.a == b.e && from_e(na.b).is(1) { return c(1, 1) }
                if nb.op == Op::Xor && nb.a == a.e && from_e(nb.b).is(1) { return c(1, 1) } }
            if let Some(r) = disjoint(a, b) { return r }
            if b.e != 0 && b.e < a.e { return mk(op, w, b, a, NOV, 0) }
        }
        Op::Xor => {
            if a.e == 0 { return bin(Op::Xor, b, a) }
            if b.is(0) { return a } if a == b { return c(w, 0) }
            let na = *node(a.e);
            if b.e == 0 {
                if na.op == Op::Xor { let y = from_e(na.b); if y.is_c() { return bin(Op::Xor, from_e(na.a), c(w, y.v ^ b.v)) } }
                if w == 1 && na.op == Op::Ult { return bin(Op::Ule, from_e(na.b), from_e(na.a)) }
                if w == 1 && na.op == Op::Ule { return bin(Op::Ult, from_e(na.b), from_e(na.a)) }
                if w == 1 && na.op == Op::Slt { return bin(Op::Sle, from_e(na.b), from_e(na.a)) }
                if w == 1 && na.op == Op::Sle { return bin(Op::Slt, from_e(na.b), from_e(na.a)) }
                // split contiguous-low constant ops over concat/zext
                if na.op == Op::ZExt { let aw = node(na.a).w; if b.v <= mask(aw) { return zext(bin(Op::Xor, from_e(na.a), c(aw, b.v)), w) } }
            } else {
                if na.op == Op::Xor { if na.a == b.e { return from_e(na.b) } if na.b == b.e { return from_e(na.a) } }
                let nb = *node(b.e);
                if nb.op == Op::Xor { if nb.a == a.e { return from_e(nb.b) } if nb.b == a.e { return from_e(nb.a) } }
                if let Some(r) = disjoint(a, b) { return r }
                if b.e < a.e { return mk(op, w, b, a, NOV, 0) }
            }
        }
        Op::Shl => {
            if b.is(0) || a.is(0) { return a }
            if b.e == 0 { if b.v >= w as u128 { return c(w, 0) } let k = b.v as u16; return concat(extract(a, w - k - 1, 0), c(k, 0)) }
        }
        Op::LShr => {
            if b.is(0) || a.is(0) { return a }
            if b.e == 0 { if b.v >= w as u128 { return c(w, 0) } let k = b.v as u16; return zext(extract(a, w - 1, k), w) }
        }
        Op::AShr => {
            if b.is(0) || a.is(0) { return a }
            if kz(a) >> (w - 1) & 1 == 1 { return bin(Op::LShr, a, b) }
            if b.e == 0 { let k = b.v.min(w as u128 - 1) as u16; return sext(extract(a, w - 1, k), w) }
        }
        Op::Eq => {
            if a == b { return cb(true) }
            if a.e == 0 { return bin(Op::Eq, b, a) }
            // known-bit conflict
            if (kz(a) & ko(b)) | (ko(a) & kz(b)) != 0 { return cb(false) }
            let na = *node(a.e);
            if b.e == 0 {
                if w == 1 { return if b.v == 1 { a } else { not(a) } }
                match na.op {
                    Op::ZExt => { let aw = node(na.a).w; return if b.v & !mask(aw) != 0 { cb(false) } else { bin(Op::Eq, from_e(na.a), c(aw, b.v)) } }
                    Op::SExt => { let aw = node(na.a).w; let t = c(aw, b.v); return if sx(t.v, aw) as u128 & m == b.v { bin(Op::Eq, from_e(na.a), t) } else { cb(false) } }
                    Op::Concat => { let (x, y) = (from_e(na.a), from_e(na.b));
                        if x.is_c() || y.is_c() || true { return bin(Op::And, bin(Op::Eq, x, c(x.w, b.v >> y.w)), bin(Op::Eq, y, c(y.w, b.v))) } }
                    Op::Xor => { let y = from_e(na.b); if y.is_c() { return bin(Op::Eq, from_e(na.a), c(w, y.v ^ b.v)) } if b.v == 0 { return bin(Op::Eq, from_e(na.a), y) } }
                    Op::Add => { let y = from_e(na.b); if y.is_c() { return bin(Op::Eq, from_e(na.a), c(w, b.v.wrapping_sub(y.v))) } }
                    Op::Sub => { if b.v == 0 { return bin(Op::Eq, from_e(na.a), from_e(na.b)) } }
                    _ => {}
                }
            } else {
                let nb = *node(b.e);
                if na.op == Op::ZExt && nb.op == Op::ZExt && node(na.a).w == node(nb.a).w { return bin(Op::Eq, from_e(na.a), from_e(nb.a)) }
                if na.op == Op::Concat && nb.op == Op::Concat && node(na.b).w == node(nb.b).w {
                    return bin(Op::And, bin(Op::Eq, from_e(na.a), from_e(nb.a)), bin(Op::Eq, from_e(na.b), from_e(nb.b))) }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return bin(Op::Eq, from_e(na.a), from_e(nb.a)) }
                if na.op == Op::Add && na.a == b.e { return bin(Op::Eq, from_e(na.b), c(w, 0)) }
                if let Some(l) = Lin::of(a, b, true) { return l.eq0() }
                if b.e < a.e { return mk(op, 1, b, a, NOV, 0) }
            }
            return mk(op, 1, a, b, NOV, 0);
        }
        Op::Ult => {
            if a == b { return cb(false) }
            if umax(a) < umin(b) { return cb(true) } if umin(a) >= umax(b) { return cb(false) }
            if b.is(1) { return bin(Op::Eq, a, c(w, 0)) }
            if a.is(0) { return not(bin(Op::Eq, b, c(w, 0))) }
            if let Some((x, y)) = strip2(a, b) { return bin(op, x, y) }
            return mk(op, 1, a, b, NOV, 0);
        }
        Op::Ule => {
            if a == b { return cb(true) }
            if umax(a) <= umin(b) { return cb(true) } if umin(a) > umax(b) { return cb(false) }
            if b.is(0) { return bin(Op::Eq, a, b) }
            if let Some((x, y)) = strip2(a, b) { return bin(op, x, y) }
            return mk(op, 1, a, b, NOV, 0);
        }
        Op::Slt | Op::Sle => {
            if a == b { return cb(op == Op::Sle) }
            let s = w - 1;
            let (az, bz) = (kz(a) >> s & 1 == 1, kz(b) >> s & 1 == 1);
            let (ao, bo) = (ko(a) >> s & 1 == 1, ko(b) >> s & 1 == 1);
            if (az && bz) || (ao && bo) { return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b) }
            if az && bo { return cb(false) } if ao && bz { return cb(true) }
            // x < 0  -> sign bit
            if op == Op::Slt && b.is(0) { return extract(a, s, s) }
            if op == Op::Sle && a.is(0) { return not(extract(b, s, s)) }
            if op == Op::Slt && a.is(m) { return not(extract(b, s, s)) }
            if op == Op::Sle && b.is(m) { return extract(a, s, s) }
            return mk(op, 1, a, b, NOV, 0);
        }
        _ => {}
    }
    mk(op, rw, a, b, NOV, 0)
}

fn strip2(a: Val, b: Val) -> Option<(Val, Val)> {
    let w = a.w;
    let hi = (umax(a) | umax(b)) & mask(w);
    let k = (128 - hi.leading_zeros()) as u16;
    if k == 0 || k >= w { return None }
    // only when structurally cheap
    let cheap = |v: Val| v.is_c() || matches!(node(v.e).op, Op::ZExt | Op::Concat | Op::And | Op::Ite);
    if cheap(a) && cheap(b) && (a.is_c() || node(a.e).op == Op::ZExt || b.is_c() || node(b.e).op == Op::ZExt) {
        Some((extract(a, k - 1, 0), extract(b, k - 1, 0)))
    } else { None }
}

/// a|b, a+b, a^b when their possibly-one bits are disjoint and separable at some bit -> concat
/// A sum of terms with coefficients, modulo 2^w, so that what cancels cancels.
struct Lin { w: u16, k: u128, t: Vec<(u32, u128)> }
impl Lin {
    /// a + b, or a - b.  None unless one of them is a sum, or too many terms.
    fn of(a: Val, b: Val, minus: bool) -> Option<Lin> {
        let sum = |v: Val| v.e != 0 && matches!(node(v.e).op, Op::Add | Op::Sub);
        if a.w == 1 || !(sum(a) || sum(b)) { return None }
        let mut l = Lin { w: a.w, k: 0, t: Vec::new() };
        let m = mask(a.w);
        if !l.add(a, 1, 0) || !l.add(b, if minus { m } else { 1 }, 0) { return None }
        l.t.retain(|x| x.1 != 0);
        l.t.sort();
        Some(l)
    }
    fn add(&mut self, v: Val, co: u128, d: u32) -> bool {
        let m = mask(self.w);
        if v.e == 0 { self.k = self.k.wrapping_add(v.v.wrapping_mul(co)) & m; return true }
        let n = *node(v.e);
        if d < 24 {
            match n.op {
                Op::Const => { self.k = self.k.wrapping_add(n.k.wrapping_mul(co)) & m; return true }
                Op::Add => return self.add(from_e(n.a), co, d + 1) && self.add(from_e(n.b), co, d + 1),
                Op::Sub => return self.add(from_e(n.a), co, d + 1) && self.add(from_e(n.b), co.wrapping_neg() & m, d + 1),
                _ => {}
            }
        }
        if let Some(x) = self.t.iter_mut().find(|x| x.0 == v.e) { x.1 = x.1.wrapping_add(co) & m; return true }
        if self.t.len() >= 24 { return false }
        self.t.push((v.e, co));
        true
    }
    /// Sum of the terms taken with the sign of their coefficients, as (positive, negative).
    fn parts(&self) -> (Val, Val) {
        let (w, m) = (self.w, mask(self.w));
        let (mut p, mut n) = (c(w, 0), c(w, 0));
        let plus = |s: Val, v: Val| if s.is(0) { v } else { mk(Op::Add, w, s, v, NOV, 0) };
        for &(e, co) in &self.t {
            let v = from_e(e);
            let neg = co.wrapping_neg() & m;
            if co == 1 { p = plus(p, v) }
            else if neg == 1 { n = plus(n, v) }
            else if neg < co { n = plus(n, mk(Op::Mul, w, v, c(w, neg), NOV, 0)) }
            else { p = plus(p, mk(Op::Mul, w, v, c(w, co), NOV, 0)) }
        }
        (p, n)
    }
    fn build(&self) -> Val {
        let w = self.w;
        let (p, n) = self.parts();
        let r = if n.is(0) { p } else { mk(Op::Sub, w, p, n, NOV, 0) };
        if self.k == 0 { return r }
        if r.is_c() { return c(w, r.v.wrapping_add(self.k)) }
        mk(Op::Add, w, r, c(w, self.k), NOV, 0)
    }
    fn eq0(&self) -> Val {
        let (w, m) = (self.w, mask(self.w));
        let nk = self.k.wrapping_neg() & m;
        if self.t.is_empty() { return cb(self.k == 0) }
        if self.t.len() == 1 && self.t[0].1 == 1 { return bin(Op::Eq, from_e(self.t[0].0), c(w, nk)) }
        if self.t.len() == 1 && self.t[0].1 == m { return bin(Op::Eq, from_e(self.t[0].0), c(w, self.k)) }
        let (p, n) = self.parts();
        // two plain terms that are equal: compare them as such
        if self.k == 0 && self.t.len() == 2 && !p.is(0) && !n.is(0) && !matches!(node(p.e).op, Op::Add | Op::Sub | Op::Mul) && !matches!(node(n.e).op, Op::Add | Op::Sub | Op::Mul) {
            return bin(Op::Eq, p, n);
        }
        let n = if nk == 0 { n } else if n.is(0) { c(w, nk) } else { mk(Op::Add, w, n, c(w, nk), NOV, 0) };
        if p.is_c() || (n.e != 0 && n.e < p.e) { return mk(Op::Eq, 1, n, p, NOV, 0) }
        mk(Op::Eq, 1, p, n, NOV, 0)
    }
}

fn disjoint(a: Val, b: Val) -> Option<Val> {
    let w = a.w;
    let (ma, mb) = (umax(a), umax(b));
    if ma & mb != 0 { return None }
    if ma == 0 { return Some(b) } if mb == 0 { return Some(a) }
    let (hi, lo, mh, ml) = if ma > mb { (a, b, ma, mb) } else { (b, a, mb, ma) };
    let k = (128 - ml.leading_zeros()) as u16; // lo fits in k bits
    if (mh.trailing_zeros() as u16) >= k && k < w {
        return Some(concat(extract(hi, w - 1, k), extract(lo, k - 1, 0)));
    }
    // lo concat interleaving: try split at top of hi's trailing structure
    let t = mh.leading_zeros(); let _ = t;
    // general: hi = concat(h1, h0) with zero hole where lo lives
    if hi.e != 0 {
        let n = *node(hi.e);
        if n.op == Op::Concat { let bw = node(n.b).w;
            if (lo_fits(lo, bw)) { return Some(concat(from_e(n.a), bin(Op::Or, from_e(n.b), extract(lo, bw - 1, 0)))) } }
        if n.op == Op::ZExt { let aw = node(n.a).w; if ml <= mask(aw) { return Some(zext(bin(Op::Or, from_e(n.a), extract(lo, aw - 1, 0)), w)) } }
    }
    None
}
fn lo_fits(v: Val, w: u16) -> bool { umax(v) <= mask(w) }

/// Is it built by arithmetic from narrower things, so that taking the low bits of each makes it simpler?
fn narrows(v: Val, d: u32) -> bool {
    if v.e == 0 { return true }
    let n = *node(v.e);
    match n.op {
        Op::Const | Op::ZExt | Op::SExt | Op::Concat => true,
        Op::Add | Op::Sub | Op::Mul if d > 0 => narrows(from_e(n.a), d - 1) && narrows(from_e(n.b), d - 1),
        _ => false,
    }
}
pub fn extract(a: Val, hi: u16, lo: u16) -> Val {
    let w = hi - lo + 1;
    debug_assert!(hi < a.w);
    if w == a.w { return a }
    if a.e == 0 { return c(w, a.v >> lo) }
    let n = *node(a.e);
    match n.op {
        Op::Extract => return extract(from_e(n.a), hi + n.k as u16, lo + n.k as u16),
        Op::ZExt => { let aw = node(n.a).w;
            if lo >= aw { return c(w, 0) }
            if hi < aw { return extract(from_e(n.a), hi, lo) }
            return zext(extract(from_e(n.a), aw - 1, lo), w) }
        Op::SExt => { let aw = node(n.a).w;
            if hi < aw { return extract(from_e(n.a), hi, lo) }
            if lo < aw { return sext(extract(from_e(n.a), aw - 1, lo), w) } }
        Op::Concat => { let bw = node(n.b).w;
            if lo >= bw { return extract(from_e(n.a), hi - bw, lo - bw) }
            if hi < bw { return extract(from_e(n.b), hi, lo) }
            return concat(extract(from_e(n.a), hi - bw, 0), extract(from_e(n.b), bw - 1, lo)) }
        Op::And | Op::Or | Op::Xor => return bin(n.op, extract(from_e(n.a), hi, lo), extract(from_e(n.b), hi, lo)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 && narrows(a, 6) => {
            return bin(n.op, extract(from_e(n.a), hi, 0), extract(from_e(n.b), hi, 0)) }
        Op::Ite => { let (x, y) = (from_e(n.b), from_e(n.c));
            return ite(from_e(n.a), extract(x, hi, lo), extract(y, hi, lo)) }
        _ => {}
    }
    mk(Op::Extract, w, a, NOV, NOV, lo as u128)
}
pub fn trunc(a: Val, w: u16) -> Val { if w >= a.w { a } else { extract(a, w - 1, 0) } }
pub fn zext(a: Val, w: u16) -> Val {
    if w <= a.w { return a }
    if a.e == 0 { return c(w, a.v) }
    let n = *node(a.e);
    if n.op == Op::ZExt { return zext(from_e(n.a), w) }
    if let Some((g, x, y)) = ite_consts(a) { return ite(g, zext(x, w), zext(y, w)) }
    mk(Op::ZExt, w, a, NOV, NOV, 0)
}
pub fn sext(a: Val, w: u16) -> Val {
    if w <= a.w { return a }
    if a.e == 0 { return c(w, sx(a.v, a.w) as u128) }
    if kz(a) >> (a.w - 1) & 1 == 1 { return zext(a, w) }
    if let Some((g, x, y)) = ite_consts(a) { return ite(g, sext(x, w), sext(y, w)) }
    let n = *node(a.e);
    if n.op == Op::SExt { return sext(from_e(n.a), w) }
    mk(Op::SExt, w, a, NOV, NOV, 0)
}
pub fn concat(a: Val, b: Val) -> Val {
    let w = a.w + b.w;
    if a.e == 0 && b.e == 0 { return c(w, (a.v << b.w) | b.v) }
    if a.is(0) { return zext(b, w) }
    if a.e != 0 {
        let na = *node(a.e);
        if b.e != 0 {
            let nb = *node(b.e);
            if na.op == Op::Extract {
                if nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
                    return extract(from_e(na.a), (na.k as u16) + na.w - 1, nb.k as u16) }
                // extract(x,h,k) ++ x' where x' is itself x's low (trunc at full)?
                if nb.op == Op::Concat { let f = node(nb.a); if f.op == Op::Extract && f.a == na.a && na.k == f.k + f.w as u128 {
                    return concat(extract(from_e(na.a), na.k as u16 + na.w - 1, f.k as u16), from_e(nb.b)) } }
            }
        }
        // ite with the same guard on both sides
        if b.e != 0 && na.op == Op::Ite { let nb = *node(b.e); if nb.op == Op::Ite && nb.a == na.a {
            return ite(from_e(na.a), concat(from_e(na.b), from_e(nb.b)), concat(from_e(na.c), from_e(nb.c))) } }
        if b.e == 0 && na.op == Op::Concat && from_e(na.b).is_c() { return concat(from_e(na.a), concat(from_e(na.b), b)) }
        if na.op == Op::Concat { return concat(from_e(na.a), concat(from_e(na.b), b)) }
        if na.op == Op::ZExt { let z = na.w - node(na.a).w; let _ = z; return zext(concat(from_e(na.a), b), w) }
    }
    mk(Op::Concat, w, a, b, NOV, 0)
}
pub fn ite(g: Val, a: Val, b: Val) -> Val {
    if g.e == 0 { return if g.v == 1 { a } else { b } }
    if a == b { return a }
    let w = a.w;
    let ng = *node(g.e);
    if ng.op == Op::Xor && from_e(ng.b).is(1) { return ite(from_e(ng.a), b, a) }
    if w == 1 {
        if a.is(1) && b.is(0) { return g } if a.is(0) && b.is(1) { return not(g) }
        if a.is(1) { return bin(Op::Or, g, b) } if a.is(0) { return bin(Op::And, not(g), b) }
        if b.is(0) { return bin(Op::And, g, a) } if b.is(1) { return bin(Op::Or, not(g), a) }
    }
    let (mut a, mut b) = (a, b);
    if a.e != 0 { let n = *node(a.e); if n.op == Op::Ite && n.a == g.e { a = from_e(n.b) } }
    if b.e != 0 { let n = *node(b.e); if n.op == Op::Ite && n.a == g.e { b = from_e(n.c) } }
    if a == b { return a }
    if a.e != 0 && b.e != 0 { let (x, y) = (*node(a.e), *node(b.e));
        if x.op == Op::ZExt && y.op == Op::ZExt && node(x.a).w == node(y.a).w { return zext(ite(g, from_e(x.a), from_e(y.a)), w) } }
    // ite(g, a, ite(h, a, b)) -> ite(g|h, a, b)
    if b.e != 0 { let n = *node(b.e); if n.op == Op::Ite && from_e(n.b) == a { return ite(bin(Op::Or, g, from_e(n.a)), a, from_e(n.c)) } }
    mk(Op::Ite, w, g, a, b, 0)
}

// ---------- floats ----------
fn fval(w: u16, v: u128) -> f64 { if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 } }
fn ffold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op {
            Op::FAdd => (x + y).to_bits() as u128, Op::FSub => (x - y).to_bits() as u128, Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128, Op::FRem => (x % y).to_bits() as u128,
            Op::FEq => (x == y) as u128, Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128, _ => unreachable!() }
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op {
            Op::FAdd => (x + y).to_bits() as u128, Op::FSub => (x - y).to_bits() as u128, Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128, Op::FRem => (x % y).to_bits() as u128,
            Op::FEq => (x == y) as u128, Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128, _ => unreachable!() }
    }
}
pub fn fbin(op: Op, a: Val, b: Val) -> Val {
    let rw = match op { Op::FEq | Op::FLt | Op::FLe => 1, _ => a.w };
    if a.e == 0 && b.e == 0 { return c(rw, ffold(op, a.w, a.v, b.v)) }
    mk(op, rw, a, b, NOV, 0)
}
pub fn is_nan(a: Val) -> Val { not(fbin(Op::FEq, a, a)) }
fn fun1(op: Op, aw: u16, w: u16, a: u128) -> u128 {
    let put = |x: f64| -> u128 { if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 } };
    let f = fval(aw, a);
    match op {
        Op::UiToFp => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::SiToFp => if w == 64 { (sx(a, aw) as f64).to_bits() as u128 } else { (sx(a, aw) as f32).to_bits() as u128 },
        Op::FpToUi => (f as u128) & mask(w), Op::FpToSi => (f as i128) as u128 & mask(w),
        Op::FpExt => f.to_bits() as u128, Op::FpTrunc => ((f) as f32).to_bits() as u128,
        Op::FFloor => put(f.floor()), Op::FCeil => put(f.ceil()), Op::FTruncI => put(f.trunc()),
        Op::FRoundEven => put(f.round_ties_even()), Op::FRoundAway => put(f.round()), Op::FSqrt => put(f.sqrt()),
        _ => unreachable!(),
    }
}
pub fn fun(op: Op, a: Val, w: u16) -> Val {
    if a.e == 0 { return c(w, fun1(op, a.w, w, a.v)) }
    mk(op, w, a, NOV, NOV, 0)
}

// ---------- variables of an expression ----------
pub fn vars_of(e: E) -> std::rc::Rc<Vec<E>> {
    if let Some(r) = cx().vs_cache.get(&e) { return r.clone() }
    let mut seen: std::collections::HashSet<E, BuildFx> = Default::default();
    let mut st = vec![e];
    let mut out = vec![];
    while let Some(x) = st.pop() {
        if x == 0 || !seen.insert(x) { continue }
        let n = node(x);
        match n.op { Op::Const => {} Op::Var => out.push(x),
            _ => { st.push(n.a); st.push(n.b); st.push(n.c) } }
    }
    out.sort();
    let r = std::rc::Rc::new(out);
    cx().vs_cache.insert(e, r.clone());
    r
}

// ---------- models ----------
pub struct Model { pub vals: HashMap<E, u128, BuildFx>, cache: RefCell<HashMap<E, u128, BuildFx>> }
impl Model {
    pub fn new(vals: HashMap<E, u128, BuildFx>) -> Model { Model { vals, cache: Default::default() } }
    pub fn val(&self, v: Val) -> u128 { if v.e == 0 { v.v } else { self.eval(v.e) } }
    pub fn eval(&self, e: E) -> u128 {
        let mut cache = self.cache.borrow_mut();
        if let Some(v) = cache.get(&e) { return *v }
        let mut st: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if cache.contains_key(&x) { continue }
            let n = node(x);
            match n.op {
                Op::Const => { cache.insert(x, n.k); continue }
                Op::Var => { let v = self.vals.get(&x).copied().unwrap_or(0); cache.insert(x, v); continue }
                _ => {}
            }
            if !done {
                if n.op == Op::Ite {
                    // evaluate guard first, then only the needed arm
                    if let Some(g) = cache.get(&n.a) {
                        let arm = if *g == 1 { n.b } else { n.c };
                        if let Some(v) = cache.get(&arm) { let v = *v; cache.insert(x, v); }
                        else { st.push((x, false)); st.push((arm, false)); }
                    } else { st.push((x, false)); st.push((n.a, false)); }
                    continue;
                }
                st.push((x, true));
                if n.a != 0 { st.push((n.a, false)) } if n.b != 0 { st.push((n.b, false)) } if n.c != 0 { st.push((n.c, false)) }
                continue;
            }
            let a = cache[&n.a];
            let aw = node(n.a).w;
            let v = match n.op {
                Op::Concat => { let bw = node(n.b).w; (a << bw) | cache[&n.b] }
                Op::Extract => (a >> n.k as u32) & mask(n.w),
                Op::ZExt => a,
                Op::SExt => sx(a, aw) as u128 & mask(n.w),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe => ffold(n.op, aw, a, cache[&n.b]),
                Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc | Op::FFloor | Op::FCeil | Op::FTruncI | Op::FRoundEven | Op::FRoundAway | Op::FSqrt => fun1(n.op, aw, n.w, a),
                _ => cfold(n.op, aw, a, cache[&n.b]).unwrap(),
            };
            cache.insert(x, v);
        }
        cache[&e]
    }
}
pub fn show(e: E, d: u32) -> String {
    let n = node(e);
    match n.op {
        Op::Const => format!("{:#x}", n.k), Op::Var => cx().var_names[n.k as usize].clone(),
        _ if d == 0 => "..".into(),
        _ => { let mut s = format!("({:?}", n.op); if n.op == Op::Extract { s += &format!("[{}+{}]", n.k, n.w) }
            for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &show(x, d - 1) } } s + ")" }
    }
}
