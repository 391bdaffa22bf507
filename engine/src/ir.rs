//! Textual LLVM IR reader (lazy: function bodies and global initialisers are parsed on first use).
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Vec(u64, Rc<Ty>), Arr(u64, Rc<Ty>), St(Rc<Vec<Ty>>, bool), Label, Meta, Opaque }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// store size for scalars / alloc size for aggregates
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b > 8 { (b + 15) / 16 * 16 } else { b.next_power_of_two() } }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, t) => match &**t { Ty::Int(w) if *w < 8 => (n * *w as u64 + 7) / 8, _ => n * t.size() },
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(..) => self.layout().1,
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::St(f, p) = self {
            let mut o = 0u64; let mut v = vec![];
            for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } v.push(o); o += t.size(); }
            if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
            (v, o)
        } else { panic!() }
    }
    pub fn width(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("width of {:?}", self) } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

#[derive(Clone, Debug)]
pub enum RV { N, V(Val), A(Rc<Vec<RV>>) }
impl RV {
    pub fn v(&self) -> Val { match self { RV::V(v) => *v, RV::N => panic!("use of void/undefined value"), RV::A(_) => panic!("aggregate where scalar expected") } }
    pub fn agg(&self) -> &Rc<Vec<RV>> { match self { RV::A(a) => a, _ => panic!("scalar where aggregate expected") } }
}
pub fn zero_of(t: &Ty) -> RV {
    match t {
        Ty::Int(w) => RV::V(c(*w, 0)), Ty::Ptr | Ty::F64 => RV::V(c(64, 0)), Ty::F32 => RV::V(c(32, 0)),
        Ty::Vec(n, t) | Ty::Arr(n, t) => RV::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::St(f, _) => RV::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => RV::N,
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(RV) }
pub type B = u32;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, PtrInt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Intr(Rc<str>), Ind(Opd), Asm(bool) }
#[derive(Clone, Debug)]
pub enum IK {
    Bin(Op, Opd, Opd), FBin(Op, Opd, Opd), FNeg(Opd, Ty),
    ICmp(Pred, Opd, Opd), FCmp(Rc<str>, Opd, Opd), Cast(CastK, Opd, Ty, Ty),
    Alloca(u64, Opd), Load(Ty, Opd, bool), Store(Ty, Opd, Opd, bool), Gep(Opd, i64, Vec<(Opd, i64)>),
    Br(B), CondBr(Opd, B, B), Switch(Opd, B, Vec<(u128, B)>), Ret(Option<Opd>), Unreachable,
    Call(Callee, Vec<Opd>, Option<B>, Ty), Select(Opd, Opd, Opd),
    ExtractV(Opd, Vec<u32>), InsertV(Opd, Opd, Vec<u32>), InsertE(Opd, Opd, Opd), ExtractE(Opd, Opd), Shuffle(Opd, Opd, Vec<i64>),
    Rmw(Rc<str>, Opd, Opd, Ty), CmpXchg(Opd, Opd, Opd, Ty), Fence, Freeze(Opd), LandingPad, Resume,
}
#[derive(Debug)]
pub struct Inst { pub dst: u32, pub k: IK, pub dbg: u32 }
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(B, Opd)>)>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub name: &'static str, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block> }

pub struct FnEnt { pub name: &'static str, pub header: &'static str, pub body: Option<&'static str>, pub weak: bool, pub parsed: Option<Rc<Func>> }
pub struct GlobEnt { pub name: &'static str, pub text: &'static str, pub ty: Option<Ty>, pub tls: bool, pub external: bool }

pub const SHIFT: u32 = 24;
pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnEnt>, pub fmap: HashMap<&'static str, u32>,
    pub globs: Vec<GlobEnt>, pub gmap: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>,
    pub aliases: HashMap<&'static str, &'static str>,
    pub meta: Option<HashMap<u32, &'static str>>,
}

pub fn unq(s: &'static str) -> &'static str { if s.len() >= 2 && s.starts_with('"') { &s[1..s.len() - 1] } else { s } }

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module { text, fns: vec![], fmap: HashMap::new(), globs: vec![], gmap: HashMap::new(), types: HashMap::new(), aliases: HashMap::new(), meta: None };
        let mut pos = 0usize;
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (name, _) = sym(&line[at + 1..]);
                let name = unq(name);
                let id = m.fns.len() as u32;
                if line.starts_with("define ") {
                    let end = text[eol..].find("\n}").map(|x| eol + x).unwrap();
                    m.fns.push(FnEnt { name, header: line, body: Some(&text[eol + 1..end]), weak: false, parsed: None });
                    m.fmap.insert(name, id);
                    pos = end + 2; continue;
                } else {
                    m.fns.push(FnEnt { name, header: line, body: None, weak: line.contains("extern_weak"), parsed: None });
                    m.fmap.insert(name, id);
                }
            } else if line.starts_with('@') {
                let (name, rest) = sym(&line[1..]);
                let name = unq(name);
                let rest = rest.trim_start().strip_prefix("= ").unwrap_or(rest);
                if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                    let at = rest.rfind('@').unwrap(); let (t, _) = sym(&rest[at + 1..]);
                    m.aliases.insert(name, unq(t));
                } else {
                    let id = m.globs.len() as u32;
                    m.gmap.insert(name, id);
                    let head = &rest[..rest.find(" global ").or(rest.find(" constant ")).map(|x| x + 10).unwrap_or(rest.len()).min(rest.len())];
                    m.globs.push(GlobEnt { name, text: rest, ty: None, tls: head.contains("thread_local"), external: head.starts_with("external") || head.starts_with("extern_weak") });
                }
            } else if line.starts_with('%') {
                let (name, rest) = sym(&line[1..]);
                if let Some(x) = rest.find(" type ") { m.types.insert(unq(name), &rest[x + 6..]); }
            }
            pos = eol + 1;
        }
        m
    }
    pub fn fn_addr(&self, id: u32) -> u64 { ((id + 1) as u64) << SHIFT }
    pub fn glob_addr(&self, id: u32) -> u64 { ((self.fns.len() as u32 + 1 + id) as u64) << SHIFT }
    pub fn first_free(&self) -> u64 { (self.fns.len() + self.globs.len() + 1) as u64 }
    pub fn addr_of(&self, name: &str) -> Option<u64> {
        if let Some(a) = self.aliases.get(name) { return self.addr_of(a) }
        if let Some(f) = self.fmap.get(name) { return Some(self.fn_addr(*f)) }
        self.gmap.get(name).map(|g| self.glob_addr(*g))
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        let i = addr >> SHIFT;
        if addr & ((1 << SHIFT) - 1) == 0 && i >= 1 && i <= self.fns.len() as u64 { Some(i as u32 - 1) } else { None }
    }
    /// (type, initialiser) of a global
    pub fn glob_init(&mut self, id: u32) -> (Ty, Option<RV>) {
        let g = &self.globs[id as usize];
        let (text, ext) = (g.text, g.external);
        let kw = { let a = text.find("global "); let b = text.find("constant "); match (a, b) { (Some(a), Some(b)) => if a < b { a + 7 } else { b + 9 }, (Some(a), None) => a + 7, (None, Some(b)) => b + 9, _ => panic!("global {}", text) } };
        let mut p = Ps { s: text.as_bytes(), t: text, i: kw, m: self, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        let t = p.ty();
        let init = if ext { None } else { Some(match p.opd(&t) { Opd::K(v) => v, _ => panic!() }) };
        (t, init)
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.fns[id as usize].parsed { return f.clone() }
        let f = Rc::new(parse_fn(self, id));
        self.fns[id as usize].parsed = Some(f.clone());
        f
    }
    pub fn meta_line(&mut self, id: u32) -> Option<&'static str> {
        if self.meta.is_none() {
            let mut mm = HashMap::new();
            for l in self.text.lines() { if l.starts_with('!') { if let Some(x) = l.find(" = ") { if let Ok(n) = l[1..x].parse::<u32>() { mm.insert(n, &l[x + 3..]); } } } }
            self.meta = Some(mm);
        }
        self.meta.as_ref().unwrap().get(&id).copied()
    }
}

fn sym(s: &'static str) -> (&'static str, &'static str) {
    let b = s.as_bytes();
    if b[0] == b'"' { let e = s[1..].find('"').unwrap() + 2; return (&s[..e], &s[e..]) }
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1 }
    (&s[..i], &s[i..])
}

struct Ps<'a> { s: &'static [u8], t: &'static str, i: usize, m: &'a mut Module, regs: HashMap<&'static str, u32>, nregs: u32, blocks: HashMap<&'static str, u32> }

impl<'a> Ps<'a> {
    fn ws(&mut self) { loop {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1 }
        if self.i < self.s.len() && self.s[self.i] == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 } } else { break }
    } }
    fn pk(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, ch: u8) -> bool { if self.pk() == ch { self.i += 1; true } else { false } }
    fn exp(&mut self, ch: u8) { if !self.eat(ch) { self.fail(&format!("expected '{}'", ch as char)) } }
    fn fail(&self, msg: &str) -> ! { let e = (self.i + 120).min(self.s.len()); let b = self.i.saturating_sub(120); panic!("IR parse error: {} at >>>{}<<<HERE>>>{}", msg, &self.t[b..self.i], &self.t[self.i..e]) }
    fn word(&mut self) -> &'static str { self.ws(); let b = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'+' | b'$')) { self.i += 1 } &self.t[b..self.i] }
    fn pword(&mut self) -> &'static str { let i0 = { self.ws(); self.i }; let w = self.word(); self.i = i0; w }
    fn eatw(&mut self, w: &str) -> bool { if self.pword() == w { self.word(); true } else { false } }
    fn expw(&mut self, w: &str) { if !self.eatw(w) { self.fail(&format!("expected {}", w)) } }
    fn name(&mut self) -> &'static str { // after % or @
        let (n, _) = sym(&self.t[self.i..]); self.i += n.len(); unq(n) }
    fn skip_bal(&mut self) { // at '('
        let mut d = 0; loop { let ch = self.s[self.i]; self.i += 1; match ch { b'(' => d += 1, b')' => { d -= 1; if d == 0 { break } } b'"' => { while self.s[self.i] != b'"' { self.i += 1 } self.i += 1 } _ => {} } } }
    fn ty(&mut self) -> Ty {
        let ch = self.pk();
        let t = match ch {
            b'[' => { self.i += 1; let n: u64 = self.word().parse().unwrap(); self.expw("x"); let t = self.ty(); self.exp(b']'); Ty::Arr(n, Rc::new(t)) }
            b'<' => { self.i += 1;
                if self.pk() == b'{' { self.i += 1; let f = self.tylist(); self.exp(b'>'); Ty::St(Rc::new(f), true) }
                else { let n: u64 = self.word().parse().unwrap(); self.expw("x"); let t = self.ty(); self.exp(b'>'); Ty::Vec(n, Rc::new(t)) } }
            b'{' => { self.i += 1; let f = self.tylist(); Ty::St(Rc::new(f), false) }
            b'%' => { self.i += 1; let n = self.name(); let d = *self.m.types.get(n).unwrap_or_else(|| panic!("type %{}", n));
                let (s, i, t) = (self.s, self.i, self.t); self.s = d.as_bytes(); self.t = d; self.i = 0; let r = self.ty(); self.s = s; self.i = i; self.t = t; r }
            _ => { let w = self.word(); match w {
                "void" => Ty::Void, "ptr" => { if self.eatw("addrspace") { self.skip_bal() } Ty::Ptr } "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta, "token" | "half" | "x86_fp80" | "fp128" | "opaque" => Ty::Opaque,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail(&format!("type {}", w)))),
                _ => self.fail(&format!("type '{}'", w)) } }
        };
        t
    }
    fn tylist(&mut self) -> Vec<Ty> { let mut f = vec![]; if self.eat(b'}') { return f } loop { f.push(self.ty()); if self.eat(b',') { continue } self.exp(b'}'); return f } }
    fn reg(&mut self, n: &'static str) -> u32 { if let Some(r) = self.regs.get(n) { return *r } let r = self.nregs; self.nregs += 1; self.regs.insert(n, r); r }
    fn blk(&mut self, n: &'static str) -> B { let l = self.blocks.len() as u32; *self.blocks.entry(n).or_insert(l) }
    fn label(&mut self) -> B { self.expw("label"); self.exp(b'%'); let n = self.name(); self.blk(n) }
    fn k(&mut self, t: &Ty) -> RV { match self.opd(t) { Opd::K(v) => v, _ => self.fail("constant expected") } }
    fn tk(&mut self) -> (Ty, RV) { let t = self.ty(); self.ws(); let v = self.k(&t); (t, v) }
    fn opd(&mut self, t: &Ty) -> Opd {
        let ch = self.pk();
        Opd::K(match ch {
            b'%' => { self.i += 1; let n = self.name(); return Opd::R(self.reg(n)) }
            b'@' => { self.i += 1; let n = self.name();
                match self.m.addr_of(n) { Some(a) => {
                    // extern_weak functions resolve to null unless the environment models them
                    if let Some(f) = self.m.fmap.get(n) { let fe = &self.m.fns[*f as usize]; if fe.weak && !crate::exec::weak_modelled(n) { return Opd::K(RV::V(c(64, 0))) } }
                    RV::V(c64(a)) }
                    None => self.fail(&format!("unknown global @{}", n)) } }
            b'c' if self.s[self.i + 1] == b'"' => { self.i += 2; let mut v = vec![];
                while self.s[self.i] != b'"' { if self.s[self.i] == b'\\' { if self.s[self.i + 1] == b'\\' { v.push(RV::V(c(8, b'\\' as u128))); self.i += 2 } else { let h = u8::from_str_radix(&self.t[self.i + 1..self.i + 3], 16).unwrap(); v.push(RV::V(c(8, h as u128))); self.i += 3 } } else { v.push(RV::V(c(8, self.s[self.i] as u128))); self.i += 1 } }
                self.i += 1; RV::A(Rc::new(v)) }
            b'{' | b'[' => { self.i += 1; let cl = if ch == b'{' { b'}' } else { b']' }; self.agg(cl) }
            b'<' => { self.i += 1; if self.pk() == b'{' { self.i += 1; let r = self.agg(b'}'); self.exp(b'>'); r } else { self.agg(b'>') } }
            _ => { let w = self.word(); match w {
                "true" => RV::V(cb(true)), "false" => RV::V(cb(false)), "null" => RV::V(c(64, 0)), "none" => RV::N,
                "undef" | "poison" | "zeroinitializer" => zero_of(t),
                "splat" => { self.exp(b'('); let (_, v) = self.tk(); self.exp(b')'); match t { Ty::Vec(n, _) => RV::A(Rc::new(vec![v; *n as usize])), _ => self.fail("splat") } }
                "getelementptr" => { while matches!(self.pword(), "inbounds" | "nuw" | "nusw" | "inrange") { self.word(); if self.pk() == b'(' && self.t[..self.i].trim_end().ends_with("inrange") { self.skip_bal() } }
                    self.exp(b'('); let et = self.ty(); self.exp(b','); let (_, base) = self.tk(); let mut idx = vec![];
                    while self.eat(b',') { self.eatw("inrange"); let (t, v) = self.tk(); idx.push((t, Opd::K(v))); } self.exp(b')');
                    let (off, dynv) = gep_off(&et, &idx); assert!(dynv.is_empty());
                    RV::V(bin(Op::Add, base.v(), c(64, off as i128 as u128))) }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => { self.exp(b'('); let (_, v) = self.tk(); self.expw("to"); let t2 = self.ty(); self.exp(b')');
                    let v = v.v(); let w2 = t2.width(); RV::V(if w == "sext" { sext(v, w2) } else if w2 > v.w { zext(v, w2) } else { trunc(v, w2) }) }
                "sub" | "add" | "mul" | "xor" => { while matches!(self.pword(), "nsw" | "nuw") { self.word(); } self.exp(b'('); let (_, a) = self.tk(); self.exp(b','); let (_, b) = self.tk(); self.exp(b')');
                    RV::V(bin(match w { "sub" => Op::Sub, "add" => Op::Add, "mul" => Op::Mul, _ => Op::Xor }, a.v(), b.v())) }
                "dso_local_equivalent" | "no_cfi" => return self.opd(t),
                _ => match t {
                    Ty::Int(wd) => { let v: i128 = w.parse().or_else(|_| w.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| self.fail(&format!("int const '{}'", w))); RV::V(c(*wd, v as u128)) }
                    Ty::F64 | Ty::F32 if w.starts_with("f0x") => { let b = u64::from_str_radix(&w[3..], 16).unwrap_or_else(|_| self.fail("float bits")); RV::V(c(if *t == Ty::F64 { 64 } else { 32 }, b as u128)) }
                    Ty::F64 | Ty::F32 if w.trim_start_matches(|c| c == '+' || c == '-').starts_with(|c: char| matches!(c, 'i' | 'q' | 'n' | 's')) => {
                        let d = *t == Ty::F64; let (e, q) = if d { (0x7ffu64 << 52, 1u64 << 51) } else { (0xff << 23, 1 << 22) };
                        let m = match w.trim_start_matches(|c| c == '+' || c == '-') { "inf" => 0, "qnan" => q, n @ ("nan" | "snan") => { self.exp(b'('); let h = self.word(); let x = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap_or_else(|_| self.fail("nan")); self.exp(b')'); if n == "nan" { q | x } else { x } } _ => self.fail(&format!("float const {:?}", w)) };
                        let sg = if w.starts_with('-') { if d { 1u64 << 63 } else { 1 << 31 } } else { 0 };
                        RV::V(c(if d { 64 } else { 32 }, (sg | e | m) as u128)) }
                    Ty::F64 | Ty::F32 => { let bits64 = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { w.parse::<f64>().unwrap_or_else(|_| self.fail(&format!("float const {:?}", w))).to_bits() };
                        RV::V(if *t == Ty::F64 { c(64, bits64 as u128) } else { c(32, (f64::from_bits(bits64) as f32).to_bits() as u128) }) }
                    _ => self.fail(&format!("constant '{}' of {:?}", w, t)) } } }
        })
    }
    fn agg(&mut self, cl: u8) -> RV { let mut v = vec![]; if self.eat(cl) { return RV::A(Rc::new(v)) } loop { let (_, x) = self.tk(); v.push(x); if self.eat(b',') { continue } self.exp(cl); return RV::A(Rc::new(v)) } }
    fn typed(&mut self) -> (Ty, Opd) { let t = self.ty(); self.attrs(); let o = self.opd(&t); (t, o) }
    /// skip parameter/return attributes
    fn attrs(&mut self) {
        loop {
            let ch = self.pk();
            if ch == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1; if self.pk() == b'=' { self.i += 1; self.pk(); self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1 } continue }
            if !ch.is_ascii_lowercase() { return }
            if ch == b'c' && self.s[self.i + 1] == b'"' { return }
            let w = self.pword();
            match w {
                "noundef" | "zeroext" | "signext" | "inreg" | "noalias" | "nofree" | "nonnull" | "readonly" | "writeonly" | "readnone" | "nocapture" | "returned" | "immarg" | "nest" | "swiftself" | "swifterror" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind" | "dead_on_return" | "noext" | "nosync" => { self.word(); if self.s.get(self.i) == Some(&b'(') { self.skip_bal() } }
                "align" => { self.word(); if self.pk() == b'(' { self.skip_bal() } else { self.word(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "range" | "captures" | "nofpclass" | "initializes" | "elementtype" | "preallocated" | "inalloca" | "alignstack" | "allocsize" | "memory" => { self.word(); self.pk(); self.skip_bal() }
                _ => return,
            }
        }
    }
    fn eol(&mut self) -> u32 { // rest of the line, returning !dbg id
        while self.i > 0 && (self.s[self.i - 1] as char).is_ascii_whitespace() { self.i -= 1 }
        let b = self.i; while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 }
        let r = &self.t[b..self.i];
        if let Some(x) = r.find("!dbg !") { let r = &r[x + 6..]; let e = r.find(|ch: char| !ch.is_ascii_digit()).unwrap_or(r.len()); return r[..e].parse().unwrap_or(0) }
        0
    }
}

pub fn gep_off(et: &Ty, idx: &[(Ty, Opd)]) -> (i64, Vec<(Opd, i64)>) {
    let mut off = 0i64; let mut dynv = vec![];
    let mut cur = et.clone();
    for (n, (_, o)) in idx.iter().enumerate() {
        let scale; 
        if n == 0 { scale = cur.size() as i64; }
        else {
            match cur.clone() {
                Ty::St(f, _) => { let i = match o { Opd::K(RV::V(v)) => v.v as usize, _ => panic!() }; off += cur.layout().0[i] as i64; cur = f[i].clone(); continue }
                Ty::Arr(_, t) | Ty::Vec(_, t) => { scale = t.size() as i64; cur = (*t).clone(); }
                _ => panic!("gep into {:?}", cur),
            }
        }
        match o { Opd::K(RV::V(v)) if v.is_c() => off = off.wrapping_add((sx(v.v, v.w) as i64).wrapping_mul(scale)), _ => dynv.push((o.clone(), scale)) }
    }
    (off, dynv)
}

fn parse_fn(m: &mut Module, id: u32) -> Func {
    let (name, header, body) = { let f = &m.fns[id as usize]; (f.name, f.header, f.body.unwrap_or_else(|| panic!("no body for {}", f.name))) };
    let mut p = Ps { s: header.as_bytes(), t: header, i: header.find('@').unwrap() + 1, m, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() };
    p.name();
    p.exp(b'(');
    let mut params = vec![];
    let mut unnamed = 0;
    if !p.eat(b')') { loop {
        if p.pk() == b'.' { p.i += 3; p.exp(b')'); break }
        p.ty(); p.attrs();
        if p.pk() == b'%' { p.i += 1; let n = p.name(); if n.parse::<u32>().is_ok() { unnamed += 1 } params.push(p.reg(n)); } else { let n: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str()); unnamed += 1; params.push(p.reg(n)); }
        if p.eat(b',') { continue } p.exp(b')'); break
    } }
    p.s = body.as_bytes(); p.t = body; p.i = 0;
    let mut blocks: Vec<Block> = vec![];
    // entry label
    let mut cur: B;
    {
        p.ws();
        let save = p.i; let (n, rest) = if p.pk() == b'"' { let n = p.name(); (n, p.s[p.i]) } else { let w = p.word(); (w, *p.s.get(p.i).unwrap_or(&0)) };
        if rest == b':' && !n.is_empty() { p.i += 1; cur = p.blk(n); } else { p.i = save; let n: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str()); cur = p.blk(n); }
    }
    let mut out: HashMap<B, Block> = HashMap::new();
    let mut blk = Block::default();
    loop {
        p.ws();
        if p.i >= p.s.len() { out.insert(cur, blk); break }
        // label?
        { let save = p.i; let n = if p.s[p.i] == b'"' { p.name() } else { p.word() };
          if !n.is_empty() && p.s.get(p.i) == Some(&b':') { p.i += 1; out.insert(cur, std::mem::take(&mut blk)); cur = p.blk(n); continue }
          p.i = save; }
        let mut dst = u32::MAX;
        if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); dst = p.reg(n); p.exp(b'='); }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = p.word(); }
        let k = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.pword(), "nuw" | "nsw" | "exact" | "disjoint") { p.word(); }
                let t = p.ty(); let a = p.opd(&t); p.exp(b','); let b = p.opd(&t);
                IK::Bin(match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr }, a, b) }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(p.pword(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); }
                let t = p.ty(); let a = p.opd(&t); p.exp(b','); let b = p.opd(&t);
                IK::FBin(match op { "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, _ => Op::FRem }, a, b) }
            "fneg" => { let t = p.ty(); let a = p.opd(&t); IK::FNeg(a, t) }
            "icmp" => { p.eatw("samesign"); let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => p.fail(x) };
                let t = p.ty(); let a = p.opd(&t); p.exp(b','); let b = p.opd(&t); IK::ICmp(pr, a, b) }
            "fcmp" => { let mut w = p.word(); while matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { w = p.word(); }
                let t = p.ty(); let a = p.opd(&t); p.exp(b','); let b = p.opd(&t); IK::FCmp(w.into(), a, b) }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                while matches!(p.pword(), "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "contract") { p.word(); }
                let (t, a) = p.typed(); p.expw("to"); let t2 = p.ty();
                IK::Cast(match op { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastK::PtrInt, "bitcast" | "addrspacecast" => CastK::Bit, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fpext" => CastK::FpExt, _ => CastK::FpTrunc }, a, t, t2) }
            "alloca" => { p.eatw("inalloca"); let t = p.ty(); let mut n = Opd::K(RV::V(c(64, 1)));
                let save = p.i; if p.eat(b',') { if p.pword() == "align" || p.pk() == b'!' || p.pword() == "addrspace" { p.i = save } else { n = p.typed().1 } }
                IK::Alloca(t.size(), n) }
            "load" => { let at = p.eatw("atomic"); p.eatw("volatile"); let t = p.ty(); p.exp(b','); let (_, a) = p.typed(); IK::Load(t, a, at) }
            "store" => { let at = p.eatw("atomic"); p.eatw("volatile"); let (t, v) = p.typed(); p.exp(b','); let (_, a) = p.typed(); IK::Store(t, v, a, at) }
            "getelementptr" => { while matches!(p.pword(), "inbounds" | "nuw" | "nusw") { p.word(); }
                let et = p.ty(); p.exp(b','); let (_, base) = p.typed(); let mut idx = vec![];
                loop { let save = p.i; if p.eat(b',') { if p.pk() == b'!' { p.i = save; break } idx.push(p.typed()) } else { break } }
                let (off, d) = gep_off(&et, &idx); IK::Gep(base, off, d) }
            "br" => { if p.pword() == "label" { IK::Br(p.label()) } else { let (_, cnd) = p.typed(); p.exp(b','); let a = p.label(); p.exp(b','); let b = p.label(); IK::CondBr(cnd, a, b) } }
            "switch" => { let (t, v) = p.typed(); p.exp(b','); let d = p.label(); p.exp(b'['); let mut cs = vec![];
                while !p.eat(b']') { let (_, kv) = p.tk(); p.exp(b','); let l = p.label(); cs.push((kv.v().v, l)); } let _ = t; IK::Switch(v, d, cs) }
            "ret" => { let t = p.ty(); if t == Ty::Void { IK::Ret(None) } else { IK::Ret(Some(p.opd(&t))) } }
            "unreachable" => IK::Unreachable,
            "select" => { while matches!(p.pword(), "fast" | "nnan" | "ninf" | "nsz") { p.word(); } let (_, g) = p.typed(); p.exp(b','); let (_, a) = p.typed(); p.exp(b','); let (_, b) = p.typed(); IK::Select(g, a, b) }
            "extractvalue" => { let (_, a) = p.typed(); let mut ix = vec![]; loop { let save = p.i; if p.eat(b',') { if p.pk() == b'!' { p.i = save; break } ix.push(p.word().parse().unwrap()) } else { break } } IK::ExtractV(a, ix) }
            "insertvalue" => { let (_, a) = p.typed(); p.exp(b','); let (_, b) = p.typed(); let mut ix = vec![]; loop { let save = p.i; if p.eat(b',') { if p.pk() == b'!' { p.i = save; break } ix.push(p.word().parse().unwrap()) } else { break } } IK::InsertV(a, b, ix) }
            "insertelement" => { let (_, a) = p.typed(); p.exp(b','); let (_, b) = p.typed(); p.exp(b','); let (_, i) = p.typed(); IK::InsertE(a, b, i) }
            "extractelement" => { let (_, a) = p.typed(); p.exp(b','); let (_, i) = p.typed(); IK::ExtractE(a, i) }
            "shufflevector" => { let (_, a) = p.typed(); p.exp(b','); let (_, b) = p.typed(); p.exp(b','); let (_, mv) = p.tk();
                let ms = mv.agg().iter().map(|x| sx(x.v().v, 32) as i64).collect(); IK::Shuffle(a, b, ms) }
            "atomicrmw" => { p.eatw("volatile"); let o: Rc<str> = p.word().into(); let (_, a) = p.typed(); p.exp(b','); let (t, v) = p.typed(); IK::Rmw(o, a, v, t) }
            "cmpxchg" => { p.eatw("weak"); p.eatw("volatile"); let (_, a) = p.typed(); p.exp(b','); let (t, e) = p.typed(); p.exp(b','); let (_, n) = p.typed(); IK::CmpXchg(a, e, n, t) }
            "fence" => IK::Fence,
            "freeze" => { let (_, a) = p.typed(); IK::Freeze(a) }
            "landingpad" => { // type then clauses on following lines
                p.eol(); loop { let save = p.i; let w = p.pword(); if matches!(w, "cleanup" | "catch" | "filter") { p.word(); p.eol(); } else { p.i = save; break } } IK::LandingPad }
            "resume" => IK::Resume,
            "phi" => { let t = { while matches!(p.pword(), "fast" | "nnan" | "ninf" | "nsz") { p.word(); } p.ty() }; let mut v = vec![];
                loop { p.exp(b'['); let o = p.opd(&t); p.exp(b','); p.exp(b'%'); let n = p.name(); let b = p.blk(n); p.exp(b']'); v.push((b, o)); let save = p.i; if p.eat(b',') { if p.pk() == b'!' { p.i = save; break } } else { break } }
                blk.phis.push((dst, v)); p.eol(); continue }
            "call" | "invoke" => {
                // fast-math, calling convention, ret attrs
                loop { let w = p.pword(); if matches!(w, "fastcc" | "coldcc" | "ccc" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "preserve_mostcc" | "preserve_allcc" | "win64cc" | "cc") { p.word(); } else { break } }
                p.attrs();
                let rt = p.ty();
                if p.pk() == b'(' { p.skip_bal(); }
                p.attrs();
                let callee = if p.pk() == b'@' { p.i += 1; let n = p.name();
                    let n = p.m.aliases.get(n).copied().unwrap_or(n);
                    if n.starts_with("llvm.") { Callee::Intr(n.into()) } else { Callee::Fn(*p.m.fmap.get(n).unwrap_or_else(|| panic!("callee {}", n))) } }
                    else if p.pword() == "asm" { p.word(); while matches!(p.pword(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { p.word(); } p.ws(); p.i += 1; let b = p.i; while p.s[p.i] != b'"' { p.i += 1 } let empty = p.i == b; p.i += 1; p.exp(b','); p.ws(); p.i += 1; while p.s[p.i] != b'"' { p.i += 1 } p.i += 1; Callee::Asm(empty) }
                    else { Callee::Ind(p.opd(&Ty::Ptr)) };
                p.exp(b'(');
                let mut args = vec![];
                if !p.eat(b')') { loop {
                    let t = p.ty();
                    if t == Ty::Meta { // skip metadata operand
                        let mut d = 0; loop { let ch = p.s[p.i]; if d == 0 && (ch == b',' || ch == b')') { break } if ch == b'(' { d += 1 } if ch == b')' { d -= 1 } p.i += 1 } args.push(Opd::K(RV::N)) }
                    else { p.attrs(); args.push(p.opd(&t)) }
                    if p.eat(b',') { continue } p.exp(b')'); break
                } }
                let mut nb = None;
                if op == "invoke" { while p.pword() != "to" { p.i += 1 } p.word(); nb = Some(p.label()); p.expw("unwind"); let _ = p.label(); }
                IK::Call(callee, args, nb, rt) }
            _ => p.fail(&format!("instruction '{}'", op)),
        };
        let dbg = p.eol();
        blk.insts.push(Inst { dst, k, dbg });
    }
    let nb = p.blocks.len();
    let nregs = p.nregs;
    for b in 0..nb as u32 { blocks.push(out.remove(&b).unwrap_or_else(|| panic!("missing block {} in {}", b, name))); }
    Func { id, name, params, nregs, blocks }
}
