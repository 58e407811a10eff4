//! Symbolic executor: one `Ex` per worker thread; every path is executed from the start under a
//! decision prefix, with a concrete model guiding fresh branches.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V { C(u64), S(E), A(Rc<Vec<V>>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum D { B(bool, u32), I(bool, u32), Eq(u64, bool, u32), Sw(u32, u32) }

#[derive(Clone)]
pub struct Item { pub prefix: Vec<D>, pub model: Vec<u128> }

#[derive(Debug, Clone)]
pub enum Stop { End, Infeasible, Viol(String, String), Incon(String) }
type X<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<Vec<E>>>, pub ro: bool, pub base: bool }

struct Frame { f: u32, blk: u32, ip: usize, regs: Vec<V>, allocas: Vec<u32>, dst: u32, normal: Option<u32> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    Undef, Nop, Malloc, Calloc, Realloc, Free, MemAlign, MemCpy, MemMove, MemSet, MemCmp, Bcmp, StrLen, Errno,
    Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr, UMin, UMax, SMin, SMax, Abs, AddOv, SubOv, MulOv, SAddOv, SSubOv, SMulOv,
    USubSat, UAddSat, SSubSat, SAddSat, UCmp, SCmp, LoadRel, Ident, IsConst, Assume, Trap, ObjSize,
    SymVar, SymAssume, SymFail, SymReach, SymLog, SymConc, SymIs, SymParam, PanicFmt, PanicOther, Abort, RetOne,
    RedAdd, RedOr, RedAnd, RedXor, RedUMax, RedUMin, Getenv, Write, Floor, Ceil, Trunc, Rint, Sqrt, Fabs, FpToUiSat, FpToSiSat, MaskedLoad, FMul,
}

pub struct Prog {
    pub m: Module,
    pub bi: Vec<Bi>,
    pub images: Vec<Vec<u8>>,
    pub ro: Vec<bool>,
    pub gaddr: HashMap<String, u64>,
    pub fn_base: u32,
    pub nbase: u32,
}

pub fn bi_of(name: &str, f: &Func) -> Option<Bi> {
    use Bi::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return Some(
            if p("ctlz.") { Ctlz } else if p("cttz.") { Cttz } else if p("ctpop.") { Ctpop } else if p("bswap.") { Bswap } else if p("bitreverse.") { Bitrev }
            else if p("fshl.") { Fshl } else if p("fshr.") { Fshr } else if p("umin.") { UMin } else if p("umax.") { UMax } else if p("smin.") { SMin } else if p("smax.") { SMax }
            else if p("abs.") { Abs } else if p("uadd.with") { AddOv } else if p("usub.with") { SubOv } else if p("umul.with") { MulOv }
            else if p("sadd.with") { SAddOv } else if p("ssub.with") { SSubOv } else if p("smul.with") { SMulOv }
            else if p("usub.sat") { USubSat } else if p("uadd.sat") { UAddSat } else if p("ssub.sat") { SSubSat } else if p("sadd.sat") { SAddSat }
            else if p("ucmp") { UCmp } else if p("scmp") { SCmp } else if p("load.relative") { LoadRel } else if p("threadlocal.address") || p("expect.") || p("ptrmask") && false || p("launder") || p("strip.inv") || p("ssa.copy") { Ident }
            else if p("is.constant") { IsConst } else if p("assume") { Nop } else if p("lifetime") || p("experimental.noalias") || p("dbg.") || p("prefetch") || p("donothing") || p("sideeffect") || p("invariant") || p("var.annotation") || p("x86.sse2.pause") { Nop }
            else if p("trap") || p("ubsantrap") { Trap } else if p("memcpy") { MemCpy } else if p("memmove") { MemMove } else if p("memset") { MemSet }
            else if p("vector.reduce.add") { RedAdd } else if p("vector.reduce.or") { RedOr } else if p("vector.reduce.and") { RedAnd } else if p("vector.reduce.xor") { RedXor }
            else if p("vector.reduce.umax") { RedUMax } else if p("vector.reduce.umin") { RedUMin }
            else if p("objectsize") { ObjSize } else if p("floor") { Floor } else if p("ceil") { Ceil } else if p("trunc.f") { Trunc } else if p("rint") || p("roundeven") || p("nearbyint") { Rint } else if p("sqrt") { Sqrt } else if p("fabs") { Fabs }
            else if p("fptoui.sat") { FpToUiSat } else if p("fptosi.sat") { FpToSiSat } else if p("fmuladd") { FMul }
            else { return if f.defined { None } else { Some(Undef) } },
        );
    }
    let ov = match name {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free, "posix_memalign" => MemAlign,
        "memcpy" => MemCpy, "memmove" => MemMove, "memset" => MemSet, "memcmp" => MemCmp, "bcmp" => Bcmp, "strlen" => StrLen,
        "__errno_location" => Errno, "sym_var" => SymVar, "sym_assume" => SymAssume, "sym_fail" => SymFail, "sym_reach" => SymReach,
        "sym_log" => SymLog, "sym_concretize" => SymConc, "sym_is_sym" => SymIs, "sym_param" => SymParam, "abort" => Abort, "getenv" => Getenv, "write" => Write,
        _ => Undef,
    };
    if ov != Undef { return if f.defined { None } else { Some(ov) }; }
    if name.contains("4core9panicking9panic_fmt") { return Some(PanicFmt); }
    if name.contains("9panicking18panic_nounwind") || name.contains("9panicking19panic_cannot_unwind") || name.contains("alloc18handle_alloc_error") || name.contains("21rust_panic_with_hook") || name.contains("9panicking5panic5panic") { return Some(PanicOther); }
    if f.defined { None } else { Some(Undef) }
}

impl Prog {
    pub fn new(m: Module) -> Result<Prog, String> {
        let bi: Vec<Bi> = m.funcs.iter().map(|f| bi_of(&f.name, f).unwrap_or(Bi::Undef)).collect();
        let mut gaddr = HashMap::new();
        let ng = m.globals.len() as u32;
        for (i, g) in m.globals.iter().enumerate() { gaddr.insert(g.name.clone(), ((i as u64) + 1) << 32); }
        let fn_base = ng + 1;
        for (i, f) in m.funcs.iter().enumerate() { gaddr.insert(f.name.clone(), ((fn_base as u64) + i as u64) << 32); }
        let nbase = fn_base + m.funcs.len() as u32;
        let mut p = Prog { m, bi, images: vec![], ro: vec![], gaddr, fn_base, nbase };
        for i in 0..p.m.globals.len() {
            let g = &p.m.globals[i];
            let mut b = vec![0u8; (p.m.size(g.ty) as usize).max(if g.init.is_none() { 8 } else { 0 })];
            if let Some(c) = &g.init { p.fill(&mut b, 0, g.ty, c)?; }
            let ro = g.constant;
            p.images.push(b);
            p.ro.push(ro);
        }
        Ok(p)
    }
    pub fn addr_of(&self, n: &str) -> Result<u64, String> {
        if let Some(a) = self.gaddr.get(n) { return Ok(*a); }
        if let Some(c) = self.m.aliases.get(n) { return Ok(self.scalar(c)? as u64); }
        Err(format!("unknown global {}", n))
    }
    pub fn scalar(&self, c: &Const) -> Result<u128, String> {
        Ok(match c {
            Const::Int(_, v) => *v,
            Const::Float(_, v) => *v as u128,
            Const::Null => 0,
            Const::Undef(_) | Const::Zero(_) => 0,
            Const::Global(n) => self.addr_of(n)? as u128,
            Const::Gep(b, o) => (self.scalar(b)? as u64).wrapping_add(*o as u64) as u128,
            // difference of two objects in a relative lookup table: in objects, see LoadRel
            Const::Trunc(c, 32) if matches!(&**c, Const::Bin('-', a, b, _) if matches!(&**a, Const::PtrToInt(..)) && matches!(&**b, Const::PtrToInt(..))) => {
                let d = self.scalar(c)? as u64;
                if d as u32 != 0 { return Err("relative table entry inside of an object".into()); }
                (d >> 32) as u128
            }
            Const::PtrToInt(c, w) | Const::Trunc(c, w) => self.scalar(c)? & mask(*w),
            Const::IntToPtr(c) => self.scalar(c)?,
            Const::Bin(op, a, b, w) => {
                let (x, y) = (self.scalar(a)?, self.scalar(b)?);
                (match op { '-' => x.wrapping_sub(y), '+' => x.wrapping_add(y), '^' => x ^ y, '&' => x & y, _ => x.wrapping_mul(y) }) & mask((*w).max(1))
            }
            c => return Err(format!("scalar const {:?}", c)),
        })
    }
    fn fill(&self, b: &mut [u8], off: usize, ty: TyId, c: &Const) -> Result<(), String> {
        match c {
            Const::Undef(_) | Const::Zero(_) => Ok(()),
            Const::Str(s) => { b[off..off + s.len()].copy_from_slice(s); Ok(()) }
            Const::Agg(_, v) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = self.m.field_off(ty, i);
                    self.fill(b, off + o as usize, t, x)?;
                }
                Ok(())
            }
            c => {
                let v = self.scalar(c)?;
                let n = (self.m.bits(ty) as usize + 7) / 8;
                b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub values: Vec<(String, u32, u128)>, pub trace: Vec<String>, pub reach: Vec<String> }

pub struct Cfg { pub max_steps: u64, pub alloc_limit: u64, pub params: HashMap<String, u64>, pub max_viol: usize, pub trace: bool, pub ite_max: u64, pub sites: bool }

#[derive(Default)]
pub struct Out {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub max_steps: u64, pub forks: u64, pub viols: Vec<Violation>, pub incon: Vec<String>, pub unknown: u64,
    pub reach: BTreeMap<String, u64>, pub samples: Vec<String>, pub maxvars: usize, pub witness: BTreeMap<String, Vec<(String, u32, u128)>>, pub maxdec: usize,
}

pub struct Ex {
    pub p: Arc<Prog>,
    pub api: Arc<Api>,
    pub cfg: Arc<Cfg>,
    pub ar: Arena,
    pub sol: Solver,
    base: Vec<Rc<Obj>>,
    objs: Vec<Option<Rc<Obj>>>,
    stack_free: Vec<u32>,
    frames: Vec<Frame>,
    regpool: Vec<Vec<V>>,
    kc: Vec<Option<V>>,
    pc: Vec<E>,
    pcset: FxMap<E, bool>,
    known: FxMap<E, E>,
    memo: FxMap<E, E>,
    facts: u64,
    memo_facts: u64,
    model: Vec<u128>,
    prefix: Vec<D>,
    ci: usize,
    choices: Vec<D>,
    vars: Vec<(String, u32, u64, u64)>,
    steps: u64,
    pub new_items: Vec<Item>,
    pub visited: Vec<Vec<bool>>,
    pub out: Out,
    path_reach: BTreeSet<String>,
    cur_dbg: u32,
    errno: u64,
    pub stats_acc: Stats,
    pub timeout_ms: u32,
}

fn hi32(a: u64) -> u32 { (a >> 32) as u32 }
fn mk(w: u32, v: u64) -> u64 { if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
fn sx64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { let s = 64 - w; ((v << s) as i64) >> s } }

impl Ex {
    pub fn new(p: Arc<Prog>, api: Arc<Api>, cfg: Arc<Cfg>, timeout_ms: u32) -> Ex {
        let mut base: Vec<Rc<Obj>> = vec![];
        base.push(Rc::new(Obj { data: vec![], sym: None, ro: true, base: true }));
        for (i, im) in p.images.iter().enumerate() { base.push(Rc::new(Obj { data: im.clone(), sym: None, ro: p.ro[i], base: true })); }
        let fobj = Rc::new(Obj { data: vec![], sym: None, ro: true, base: true });
        for _ in 0..p.m.funcs.len() { base.push(fobj.clone()); }
        let visited = p.m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        let kc = vec![None; p.m.consts.len()];
        let sol = Solver::new(api.clone(), timeout_ms);
        Ex {
            p, api, cfg, ar: Arena::new(), sol, base, objs: vec![], stack_free: vec![], frames: vec![], regpool: vec![], kc, pc: vec![], pcset: Default::default(), known: Default::default(), memo: Default::default(), facts: 0, memo_facts: 0,
            model: vec![], prefix: vec![], ci: 0, choices: vec![], vars: vec![], steps: 0, new_items: vec![], visited, out: Out::default(),
            path_reach: BTreeSet::new(), cur_dbg: 0, errno: 0, stats_acc: Stats::default(), timeout_ms,
        }
    }
    pub fn acc_stats(&mut self) {
        let s = std::mem::take(&mut self.sol.stats);
        let a = &mut self.stats_acc;
        a.queries += s.queries; a.sat += s.sat; a.unsat += s.unsat; a.unknown += s.unknown; a.cache_hits += s.cache_hits; a.time += s.time;
        if s.max_time > a.max_time { a.max_time = s.max_time; }
    }
    // ---------- values
    #[inline] fn e(&mut self, v: &V, w: u32) -> E {
        match v { V::C(x) => self.ar.c(w, *x as u128), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    #[inline] fn v(&self, e: E) -> V {
        let n = &self.ar.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 { V::C(n.v as u64) } else { V::S(e) }
    }
    fn kval(&mut self, k: u32) -> X<V> {
        if let Some(v) = &self.kc[k as usize] { return Ok(v.clone()); }
        let p = self.p.clone();
        let (t, c) = &p.m.consts[k as usize];
        let v = self.const_v(*t, c)?;
        self.kc[k as usize] = Some(v.clone());
        Ok(v)
    }
    fn zero_v(&mut self, t: TyId) -> V {
        let p = self.p.clone();
        match &p.m.tys[t as usize] {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero_v(*x)).collect())),
            Ty::Arr(n, e) => { let z = self.zero_v(*e); V::A(Rc::new(vec![z; *n as usize])) }
            Ty::Vector(n, e) => { let z = self.zero_v(*e); V::A(Rc::new(vec![z; *n as usize])) }
            Ty::Int(w) if *w > 64 => V::S(self.ar.c(*w, 0)),
            _ => V::C(0),
        }
    }
    fn const_v(&mut self, t: TyId, c: &Const) -> X<V> {
        let p = self.p.clone();
        match c {
            Const::Undef(_) | Const::Zero(_) => Ok(self.zero_v(t)),
            Const::Agg(_, v) => {
                let mut o = vec![];
                for (i, x) in v.iter().enumerate() { let (_, ft) = p.m.field_off(t, i); o.push(self.const_v(ft, x)?); }
                Ok(V::A(Rc::new(o)))
            }
            Const::Str(s) => Ok(V::A(Rc::new(s.iter().map(|b| V::C(*b as u64)).collect()))),
            c => {
                let v = p.scalar(c).map_err(Stop::Incon)?;
                let w = p.m.bits(t);
                if w > 64 { Ok(V::S(self.ar.c(w, v))) } else { Ok(V::C(v as u64)) }
            }
        }
    }
    #[inline] fn op(&mut self, o: Opnd) -> X<V> {
        match o {
            Opnd::Reg(r) => Ok(self.frames.last().unwrap().regs[r as usize].clone()),
            Opnd::Imm(v) => Ok(V::C(v)),
            Opnd::K(k) => self.kval(k),
        }
    }
    // ---------- path condition and decisions
    fn ev(&mut self, e: E) -> u128 { let m = std::mem::take(&mut self.model); let r = self.ar.eval(e, &m); self.model = m; r }
    fn add_pc(&mut self, c: E) {
        if self.ar.konst(c) == Some(1) { return; }
        // split conjunctions so that slicing stays precise
        let n = self.ar.nodes[c as usize];
        if n.op == Op::And { self.add_pc(n.a); self.add_pc(n.b); return; }
        if self.pcset.contains_key(&c) { return; }
        self.pc.push(c);
        self.fact(c, true);
        let nc = self.ar.not1(c);
        self.fact(nc, false);
    }
    /// rewrite under the facts of this path: terms with a known value, conditions already decided
    fn simp(&mut self, e: E) -> E {
        if self.ar.konst(e).is_some() || (self.known.is_empty() && self.pcset.is_empty()) { return e; }
        if self.memo_facts != self.facts { self.memo.clear(); self.memo_facts = self.facts; }
        let mut budget = 400u32;
        self.simp_rec(e, &mut budget).unwrap_or(e)
    }
    fn simp_rec(&mut self, e: E, budget: &mut u32) -> Option<E> {
        let n = self.ar.nodes[e as usize];
        if n.op == Op::Const { return Some(e); }
        if let Some(&r) = self.memo.get(&e) { return Some(r); }
        if *budget == 0 { return None; }
        *budget -= 1;
        if let Some(&k) = self.known.get(&e) { return Some(k); }
        if n.w == 1 { if let Some(&b) = self.pcset.get(&e) { return Some(self.ar.c(1, b as u128)); } }
        let r = match n.op {
            Op::Var => e,
            Op::Ite => {
                let c = self.simp_rec(n.a, budget)?;
                match self.ar.konst(c) {
                    Some(0) => self.simp_rec(n.c, budget)?,
                    Some(_) => self.simp_rec(n.b, budget)?,
                    None => { let (x, y) = (self.simp_rec(n.b, budget)?, self.simp_rec(n.c, budget)?); if c == n.a && x == n.b && y == n.c { e } else { self.ar.ite(c, x, y) } }
                }
            }
            Op::ZExt => { let x = self.simp_rec(n.a, budget)?; if x == n.a { e } else { self.ar.zext(x, n.w as u32) } }
            Op::SExt => { let x = self.simp_rec(n.a, budget)?; if x == n.a { e } else { self.ar.sext(x, n.w as u32) } }
            Op::Extract => { let x = self.simp_rec(n.a, budget)?; if x == n.a { e } else { self.ar.extract(x, n.v as u32, n.w as u32) } }
            Op::Concat => { let (x, y) = (self.simp_rec(n.a, budget)?, self.simp_rec(n.b, budget)?); if x == n.a && y == n.b { e } else { self.ar.concat(x, y) } }
            op => { let (x, y) = (self.simp_rec(n.a, budget)?, self.simp_rec(n.b, budget)?); if x == n.a && y == n.b { e } else { self.ar.bin(op, x, y) } }
        };
        let r = if r != e { if let Some(&k) = self.known.get(&r) { k } else if self.ar.w(r) == 1 { match self.pcset.get(&r) { Some(&b) => self.ar.c(1, b as u128), None => r } } else { r } } else { r };
        self.memo.insert(e, r);
        Some(r)
    }
    fn fact(&mut self, c: E, v: bool) {
        self.pcset.insert(c, v);
        self.facts += 1;
        if v {
            let n = self.ar.nodes[c as usize];
            if n.op == Op::Eq {
                if self.ar.konst(n.b).is_some() { self.known.insert(n.a, n.b); } else if self.ar.konst(n.a).is_some() { self.known.insert(n.b, n.a); }
            }
        }
    }
    fn merged(&self, m: &[(u32, u128)]) -> Vec<u128> {
        let mut r = self.model.clone();
        for &(o, v) in m { if r.len() <= o as usize { r.resize(o as usize + 1, 0); } r[o as usize] = v; }
        r
    }
    fn tag(&self, e: E) -> u32 { self.ar.sh[e as usize] as u32 }
    fn next_prefix(&mut self) -> Option<D> {
        if self.ci < self.prefix.len() { let d = self.prefix[self.ci]; self.ci += 1; self.choices.push(d); Some(d) } else { None }
    }
    fn diverge<T>(&self, what: &str) -> X<T> { Err(Stop::Incon(format!("replay divergence at {}", what))) }
    fn push_item(&mut self, d: D, m: Vec<u128>) {
        let mut prefix = self.choices.clone();
        prefix.push(d);
        self.out.forks += 1;
        self.new_items.push(Item { prefix, model: m });
    }
    fn feasible(&mut self, c: E) -> X<Option<Vec<u128>>> {
        let pc = std::mem::take(&mut self.pc);
        let r = self.sol.check(&mut self.ar, &pc, c);
        self.pc = pc;
        match r {
            Res::Sat(m) => Ok(Some(self.merged(&m))),
            Res::Unsat => Ok(None),
            Res::Unknown => { self.out.unknown += 1; Err(Stop::Incon("solver returned unknown".into())) }
        }
    }
    fn branch(&mut self, c: E) -> X<bool> {
        let c = self.simp(c);
        if let Some(k) = self.ar.konst(c) { return Ok(k != 0); }
        if let Some(&b) = self.pcset.get(&c) { return Ok(b); }
        let tag = self.tag(c);
        if let Some(d) = self.next_prefix() {
            return match d {
                D::B(b, t) if t == tag => { let e = if b { c } else { self.ar.not1(c) }; self.add_pc(e); Ok(b) }
                D::I(b, t) if t == tag => { let e = if b { c } else { self.ar.not1(c) }; self.fact(e, true); let ne = self.ar.not1(e); self.fact(ne, false); Ok(b) }
                _ => self.diverge("branch"),
            };
        }
        self.ar.new_eval();
        let side = self.ev(c) != 0;
        let nc = self.ar.not1(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.feasible(other)? {
            Some(m) => { self.push_item(D::B(!side, tag), m); self.choices.push(D::B(side, tag)); self.add_pc(mine); }
            None => { self.choices.push(D::I(side, tag)); self.fact(mine, true); let nm = self.ar.not1(mine); self.fact(nm, false); }
        }
        Ok(side)
    }
    fn concretize(&mut self, e: E) -> X<u64> {
        let e = self.simp(e);
        if let Some(k) = self.ar.konst(e) { return Ok(k as u64); }
        if self.cfg.sites { eprintln!("SITE {} {}", self.frames.iter().rev().take(4).map(|f| short(&self.p.m.funcs[f.f as usize].name)).collect::<Vec<_>>().join(" < "), self.ar.show(e, 4)); }
        let w = self.ar.w(e);
        let tag = self.tag(e);
        loop {
            if let Some(d) = self.next_prefix() {
                match d {
                    D::Eq(v, b, t) if t == tag => {
                        let k = self.ar.c(w, v as u128);
                        let q = self.ar.bin(Op::Eq, e, k);
                        if b { self.add_pc(q); return Ok(v); }
                        let n = self.ar.not1(q);
                        self.add_pc(n);
                        continue;
                    }
                    _ => return self.diverge("concretize"),
                }
            }
            self.ar.new_eval();
            let v = self.ev(e) as u64;
            let k = self.ar.c(w, v as u128);
            let q = self.ar.bin(Op::Eq, e, k);
            let n = self.ar.not1(q);
            if let Some(m) = self.feasible(n)? { self.push_item(D::Eq(v, false, tag), m); }
            self.choices.push(D::Eq(v, true, tag));
            self.add_pc(q);
            return Ok(v);
        }
    }
    fn cv(&mut self, v: &V) -> X<u64> { match v { V::C(x) => Ok(*x), V::S(e) => { let e = *e; self.concretize(e) } V::A(_) => Err(Stop::Incon("aggregate as scalar".into())) } }
    fn assume(&mut self, c: E) -> X<()> {
        let c = self.simp(c);
        if let Some(k) = self.ar.konst(c) { return if k != 0 { Ok(()) } else { Err(Stop::Infeasible) }; }
        if self.ci < self.prefix.len() { self.add_pc(c); return Ok(()); }
        self.ar.new_eval();
        if self.ev(c) == 0 {
            match self.feasible(c)? { Some(m) => { self.model = m; } None => return Err(Stop::Infeasible) }
        }
        self.add_pc(c);
        Ok(())
    }
    // ---------- memory
    fn loc(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(6) { s.push_str(&short(&self.p.m.funcs[f.f as usize].name)); s.push_str(" < "); }
        s
    }
    fn ub<T>(&self, msg: &str) -> X<T> { Err(Stop::Viol("ub".into(), format!("{} in {}", msg, self.loc()))) }
    fn alloc(&mut self, size: u64) -> u64 {
        let id = self.objs.len() as u64;
        self.objs.push(Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, base: false })));
        id << 32
    }
    fn alloc_stack(&mut self, size: u64) -> u64 {
        let o = Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, base: false }));
        if let Some(id) = self.stack_free.pop() { self.objs[id as usize] = o; return (id as u64) << 32; }
        let id = self.objs.len() as u64;
        self.objs.push(o);
        id << 32
    }
    fn heap_alloc(&mut self, v: &V) -> X<u64> {
        let lim = self.cfg.alloc_limit;
        match v {
            V::C(n) => { if *n > lim { return Err(Stop::Viol("alloc-limit".into(), format!("allocation of {} bytes in {}", n, self.loc()))); } Ok(self.alloc(*n)) }
            V::S(e) => {
                let e = self.simp(*e);
                if let Some(k) = self.ar.konst(e) { return self.heap_alloc(&V::C(k as u64)); }
                let hi = self.ar.rng[e as usize].hi;
                let mut cap = hi.min(lim as u128) as u64;
                if hi > lim as u128 {
                    let k = self.ar.c(64, lim as u128);
                    let big = self.ar.bin(Op::Ult, k, e);
                    if self.branch(big)? { return Err(Stop::Viol("alloc-limit".into(), format!("allocation above {} bytes in {}", lim, self.loc()))); }
                }
                // tighten the capacity a little with the solver
                for b in [64u64, 1024, 65536, 1 << 20] {
                    if b >= cap { break; }
                    let k = self.ar.c(64, b as u128);
                    let big = self.ar.bin(Op::Ult, k, e);
                    if self.feasible(big)?.is_none() { cap = b; break; }
                }
                Ok(self.alloc(cap))
            }
            _ => Err(Stop::Incon("alloc".into())),
        }
    }
    fn obj(&self, id: u32) -> X<&Rc<Obj>> {
        match self.objs.get(id as usize) { Some(Some(o)) => Ok(o), _ => self.ub(&format!("access to a dead or invalid object {}", id)) }
    }
    fn chk(&self, a: u64, n: u64) -> X<()> {
        let o = self.obj(hi32(a))?;
        let off = a & 0xffff_ffff;
        if off + n > o.data.len() as u64 { return self.ub(&format!("out-of-bounds access: object {} size {} offset {} len {}", hi32(a), o.data.len(), off, n)); }
        Ok(())
    }
    fn load_int(&mut self, a: u64, w: u32) -> X<V> {
        let n = ((w + 7) / 8) as usize;
        self.chk(a, n as u64)?;
        let o = self.objs[hi32(a) as usize].as_ref().unwrap();
        let off = (a & 0xffff_ffff) as usize;
        let symb = match &o.sym { None => false, Some(s) => s[off..off + n].iter().any(|&e| e != 0) };
        if !symb {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::C(mk(w, u64::from_le_bytes(b))));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(V::S(self.ar.c(w, u128::from_le_bytes(b))));
        }
        let o = o.clone();
        let s = o.sym.as_ref().unwrap();
        let mut e = 0;
        for i in 0..n {
            let b = if s[off + i] != 0 { s[off + i] } else { self.ar.c(8, o.data[off + i] as u128) };
            e = if i == 0 { b } else { self.ar.concat(b, e) };
        }
        if (n * 8) as u32 != w { e = self.ar.extract(e, 0, w); }
        Ok(self.v(e))
    }
    fn store_int(&mut self, a: u64, w: u32, v: &V) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        self.chk(a, n as u64)?;
        let id = hi32(a) as usize;
        let off = (a & 0xffff_ffff) as usize;
        if self.objs[id].as_ref().unwrap().ro { return self.ub("write to read-only memory"); }
        let bytes: Vec<E> = match v {
            V::C(x) => {
                let o = Rc::make_mut(self.objs[id].as_mut().unwrap());
                let mut b = x.to_le_bytes();
                if w < 64 { b = mk(w, *x).to_le_bytes(); }
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
                return Ok(());
            }
            V::S(e) => {
                let mut e = *e;
                let ww = (n * 8) as u32;
                if self.ar.w(e) != ww { e = self.ar.zext(e, ww); }
                (0..n).map(|i| self.ar.extract(e, (i * 8) as u32, 8)).collect()
            }
            V::A(_) => return Err(Stop::Incon("store aggregate as int".into())),
        };
        for (i, b) in bytes.into_iter().enumerate() { self.put_byte(id, off + i, b); }
        Ok(())
    }
    fn put_byte(&mut self, id: usize, off: usize, b: E) {
        let k = self.ar.konst(b);
        let o = Rc::make_mut(self.objs[id].as_mut().unwrap());
        match k {
            Some(k) => { o.data[off] = k as u8; if let Some(s) = &mut o.sym { s[off] = 0; } }
            None => {
                if o.sym.is_none() { o.sym = Some(Box::new(vec![0; o.data.len()])); }
                o.sym.as_mut().unwrap()[off] = b;
            }
        }
    }
    fn load(&mut self, a: u64, t: TyId) -> X<V> {
        let p = self.p.clone();
        match &p.m.tys[t as usize] {
            Ty::Int(w) => self.load_int(a, *w),
            Ty::Ptr | Ty::F64 => self.load_int(a, 64),
            Ty::F32 => self.load_int(a, 32),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, ft) = p.m.field_off(t, i); v.push(self.load(a + o, ft)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, _) => {
                let mut v = vec![];
                for i in 0..*n as usize { let (o, ft) = p.m.field_off(t, i); v.push(self.load(a + o, ft)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vector(n, et) => {
                let ew = p.m.bits(*et);
                if ew % 8 != 0 {
                    if n * ew > 64 { return Err(Stop::Incon("bit vector load".into())); }
                    let x = self.load_int(a, n * ew)?;
                    return self.split(&x, n * ew, ew);
                }
                let mut v = vec![];
                for i in 0..*n as u64 { v.push(self.load(a + i * (ew as u64 / 8), *et)?); }
                Ok(V::A(Rc::new(v)))
            }
            x => Err(Stop::Incon(format!("load type {:?}", x))),
        }
    }
    fn store(&mut self, a: u64, t: TyId, v: &V) -> X<()> {
        let p = self.p.clone();
        match &p.m.tys[t as usize] {
            Ty::Int(w) => self.store_int(a, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(a, 64, v),
            Ty::F32 => self.store_int(a, 32, v),
            Ty::Struct(..) | Ty::Arr(..) => {
                if let V::A(x) = v { for (i, y) in x.iter().enumerate() { let (o, ft) = p.m.field_off(t, i); self.store(a + o, ft, y)?; } Ok(()) } else { Err(Stop::Incon("store agg".into())) }
            }
            Ty::Vector(n, et) => {
                let ew = p.m.bits(*et);
                if ew % 8 != 0 { let x = self.join(v, ew)?; return self.store_int(a, n * ew, &x); }
                if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.store(a + i as u64 * (ew as u64 / 8), *et, y)?; } Ok(()) } else { Err(Stop::Incon("store vec".into())) }
            }
            x => Err(Stop::Incon(format!("store type {:?}", x))),
        }
    }
    fn split(&mut self, x: &V, w: u32, ew: u32) -> X<V> {
        let e = self.e(x, w);
        let mut v = vec![];
        for i in 0..w / ew { let y = self.ar.extract(e, i * ew, ew); v.push(self.v(y)); }
        Ok(V::A(Rc::new(v)))
    }
    fn join(&mut self, v: &V, ew: u32) -> X<V> {
        if let V::A(x) = v {
            if x.len() as u32 * ew > 128 { return Err(Stop::Incon("wide join".into())); }
            let mut e = self.e(&x[0], ew);
            for y in x.iter().skip(1) { let z = self.e(y, ew); e = self.ar.concat(z, e); }
            Ok(self.v(e))
        } else { Ok(v.clone()) }
    }
    /// concrete address for an access of n bytes (forks over every feasible address)
    fn addr(&mut self, p: &V) -> X<u64> { self.cv(p) }
    fn load_sym(&mut self, e: E, t: TyId) -> X<V> {
        let p = self.p.clone();
        let scalar = matches!(p.m.tys[t as usize], Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64);
        if !scalar { let a = self.concretize(e)?; return self.load(a, t); }
        let w = p.m.bits(t);
        let n = ((w + 7) / 8) as u64;
        let (lo, hi, step, id) = match self.sym_region(e, n)? { Some(x) => x, None => { let a = self.concretize(e)?; return self.load(a, t); } };
        // build an ite chain over feasible offsets
        let mut groups: Vec<(V, Vec<u64>)> = vec![];
        let mut o = lo;
        while o <= hi {
            let v = self.load_int(((id as u64) << 32) | o, w)?;
            let mut found = false;
            for g in groups.iter_mut() { if same(&g.0, &v) { g.1.push(o); found = true; break; } }
            if !found { groups.push((v, vec![o])); }
            o += step;
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut r = self.e(&groups[0].0.clone(), w);
        for g in groups.iter().skip(1) {
            // merge runs
            let mut c = self.ar.c(1, 0);
            let mut i = 0;
            while i < g.1.len() {
                let mut j = i;
                while j + 1 < g.1.len() && g.1[j + 1] == g.1[j] + step { j += 1; }
                let (x, y) = (((id as u64) << 32) | g.1[i], ((id as u64) << 32) | g.1[j]);
                let q = if i == j { let k = self.ar.c(64, x as u128); self.ar.bin(Op::Eq, e, k) } else {
                    let (kx, ky) = (self.ar.c(64, x as u128), self.ar.c(64, y as u128));
                    let a = self.ar.bin(Op::Ule, kx, e);
                    let b = self.ar.bin(Op::Ule, e, ky);
                    self.ar.bin(Op::And, a, b)
                };
                c = self.ar.bin(Op::Or, c, q);
                i = j + 1;
            }
            let v = self.e(&g.0.clone(), w);
            r = self.ar.ite(c, v, r);
        }
        Ok(self.v(r))
    }
    /// (lo, hi, step, object) of in-bounds offsets for a symbolic address
    fn sym_region(&mut self, e: E, n: u64) -> X<Option<(u64, u64, u64, u32)>> {
        let r = self.ar.rng[e as usize];
        let id = if (r.lo >> 32) == (r.hi >> 32) && r.lo >> 32 != 0 { (r.lo >> 32) as u32 } else {
            let h = self.ar.extract(e, 32, 32);
            self.concretize(h)? as u32
        };
        let size = self.obj(id)?.data.len() as u64;
        if size < n { return Ok(None); }
        let b = (id as u128) << 32;
        let lo = r.lo.max(b) - b;
        let hi = r.hi.min(b + (size - n) as u128);
        if hi < b { return Ok(None); }
        let hi = hi - b;
        if r.lo < b || r.hi > b + (size - n) as u128 {
            let (kl, kh) = (self.ar.c(64, b), self.ar.c(64, b + (size - n) as u128));
            let x = self.ar.bin(Op::Ule, kl, e);
            let y = self.ar.bin(Op::Ule, e, kh);
            let c = self.ar.bin(Op::And, x, y);
            if !self.branch(c)? { return Ok(None); }
        }
        let mut step = 1u64;
        // stride: e = k + concat(x, 0_s)
        let nd = self.ar.nodes[e as usize];
        let mut t = e;
        let mut base = 0u128;
        if nd.op == Op::Add { if let Some(k) = self.ar.konst(nd.b) { t = nd.a; base = k; } }
        loop {
            let nt = self.ar.nodes[t as usize];
            if nt.op == Op::ZExt { t = nt.a; continue; }
            if nt.op == Op::Concat && self.ar.konst(nt.b) == Some(0) { step = 1 << self.ar.w(nt.b).min(20); }
            break;
        }
        let mut lo = lo as u64;
        if step > 1 { let b0 = (base as u64) % step; while lo % step != b0 { lo += 1; } }
        let hi = hi as u64;
        if lo > hi { return Ok(None); }
        if (hi - lo) / step > self.cfg.ite_max { return Ok(None); }
        Ok(Some((lo, hi, step, id)))
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        self.chk(d, n)?;
        self.chk(s, n)?;
        let (di, si) = (hi32(d) as usize, hi32(s) as usize);
        let (doff, soff, n) = ((d & 0xffff_ffff) as usize, (s & 0xffff_ffff) as usize, n as usize);
        if self.objs[di].as_ref().unwrap().ro { return self.ub("memcpy to read-only memory"); }
        if di == si {
            let o = Rc::make_mut(self.objs[di].as_mut().unwrap());
            o.data.copy_within(soff..soff + n, doff);
            if let Some(x) = &mut o.sym { x.copy_within(soff..soff + n, doff); }
            return Ok(());
        }
        let src = self.objs[si].as_ref().unwrap().clone();
        let o = Rc::make_mut(self.objs[di].as_mut().unwrap());
        o.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
        match &src.sym {
            Some(x) => {
                if o.sym.is_none() { if x[soff..soff + n].iter().all(|&e| e == 0) { return Ok(()); } o.sym = Some(Box::new(vec![0; o.data.len()])); }
                o.sym.as_mut().unwrap()[doff..doff + n].copy_from_slice(&x[soff..soff + n]);
            }
            None => if let Some(x) = &mut o.sym { for e in &mut x[doff..doff + n] { *e = 0; } },
        }
        Ok(())
    }
    fn byte(&mut self, a: u64) -> X<E> { let v = self.load_int(a, 8)?; Ok(self.e(&v, 8)) }
    pub fn read_bytes(&mut self, a: u64, n: u64) -> X<Vec<u8>> {
        let mut r = vec![];
        for i in 0..n { let v = self.load_int(a + i, 8)?; let b = match v { V::C(x) => x as u8, V::S(e) => { self.ar.new_eval(); self.ev(e) as u8 } _ => 0 }; r.push(b); }
        Ok(r)
    }
    fn cstr(&mut self, a: u64) -> X<String> {
        let mut r = vec![];
        let mut i = 0;
        loop { let v = self.load_int(a + i, 8)?; let b = self.cv(&v)? as u8; if b == 0 { break; } r.push(b); i += 1; }
        Ok(String::from_utf8_lossy(&r).into_owned())
    }
    fn str_arg(&mut self, a: &[V]) -> X<String> {
        let p = self.cv(&a[0])?;
        let n = self.cv(&a[1])?;
        Ok(String::from_utf8_lossy(&self.read_bytes(p, n)?).into_owned())
    }
    // ---------- run
    pub fn values(&self) -> Vec<(String, u32, u128)> {
        self.vars.iter().enumerate().map(|(i, (n, w, lo, hi))| (n.clone(), *w, clamp(self.model.get(i).copied().unwrap_or(0), *w, *lo, *hi))).collect()
    }
    pub fn run_path(&mut self, entry: u32, item: Item) {
        if self.ar.nodes.len() > 4_000_000 {
            self.acc_stats();
            self.sol.dispose();
            let dump = self.sol.dump.take();
            self.sol = Solver::new(self.api.clone(), self.timeout_ms);
            self.sol.dump = dump;
            self.ar = Arena::new();
            for k in self.kc.iter_mut() { *k = None; }
        }
        self.objs.clear();
        self.objs.extend(self.base.iter().map(|o| Some(o.clone())));
        self.stack_free.clear();
        while let Some(f) = self.frames.pop() { self.regpool.push(f.regs); }
        self.pc.clear();
        self.pcset.clear();
        self.known.clear();
        self.memo.clear();
        self.facts = 0;
        self.memo_facts = 0;
        self.model = item.model;
        self.prefix = item.prefix;
        self.ci = 0;
        self.choices.clear();
        self.vars.clear();
        self.steps = 0;
        self.errno = 0;
        self.path_reach.clear();
        self.new_items.clear();
        let r = match self.push_frame(entry, vec![], NODST, None) { Ok(()) => self.run(), Err(e) => Err(e) };
        let stop = match r { Ok(()) => Stop::End, Err(e) => e };
        self.out.steps += self.steps;
        self.out.max_steps = self.out.max_steps.max(self.steps);
        self.out.maxvars = self.out.maxvars.max(self.vars.len());
        self.out.maxdec = self.out.maxdec.max(self.choices.len());
        match stop {
            Stop::End => {
                self.out.paths += 1;
                let rs: Vec<String> = self.path_reach.iter().cloned().collect();
                for l in rs {
                    let c = self.out.reach.entry(l.clone()).or_insert(0);
                    *c += 1;
                    if *c == 1 { let v = self.values(); self.out.witness.insert(l, v); }
                }
                if self.out.samples.len() < 4 { let s = self.values().iter().map(|(n, _, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(" "); self.out.samples.push(s); }
            }
            Stop::Infeasible => self.out.infeasible += 1,
            Stop::Viol(k, m) => {
                self.out.paths += 1;
                let mut trace = vec![];
                for f in self.frames.iter().rev().take(12) { trace.push(short(&self.p.m.funcs[f.f as usize].name)); }
                let v = Violation { kind: k, msg: m, values: self.values(), trace, reach: self.path_reach.iter().cloned().collect() };
                self.out.viols.push(v);
            }
            Stop::Incon(m) => { self.out.paths += 1; let l = self.loc(); let m = format!("{} in {}", m, l); if self.out.incon.len() < 50 && !self.out.incon.contains(&m) { self.out.incon.push(m) } else if self.out.incon.is_empty() { self.out.incon.push(m) } }
        }
    }
    fn push_frame(&mut self, f: u32, args: Vec<V>, dst: u32, normal: Option<u32>) -> X<()> {
        let p = self.p.clone();
        let fu = &p.m.funcs[f as usize];
        if self.frames.len() > 3000 { return Err(Stop::Viol("stack".into(), format!("recursion depth over 3000 in {}", self.loc()))); }
        let mut regs = self.regpool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(fu.nregs as usize, V::C(0));
        for (i, a) in args.into_iter().enumerate() { if i < fu.params.len() { regs[fu.params[i] as usize] = a; } }
        self.visited[f as usize][0] = true;
        self.frames.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst, normal });
        Ok(())
    }
    fn goto(&mut self, b: u32) -> X<()> {
        let p = self.p.clone();
        let (f, from) = { let fr = self.frames.last().unwrap(); (fr.f, fr.blk) };
        let blk = &p.m.funcs[f as usize].blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, v) in &blk.phis {
                let o = v.iter().find(|x| x.0 == from).ok_or_else(|| Stop::Incon("phi".into()))?.1;
                vals.push((*d, self.op(o)?));
            }
            let fr = self.frames.last_mut().unwrap();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = self.frames.last_mut().unwrap();
        fr.blk = b;
        fr.ip = 0;
        self.visited[f as usize][b as usize] = true;
        Ok(())
    }
    fn set(&mut self, dst: u32, v: V) { if dst != NODST { self.frames.last_mut().unwrap().regs[dst as usize] = v; } }
    fn do_ret(&mut self, v: Option<V>) -> X<bool> {
        let f = self.frames.pop().unwrap();
        for a in f.allocas { self.objs[a as usize] = None; self.stack_free.push(a); }
        self.regpool.push(f.regs);
        if self.frames.is_empty() { return Ok(true); }
        if let Some(v) = v { self.set(f.dst, v); }
        if let Some(n) = f.normal { self.goto(n)?; }
        Ok(false)
    }
    fn run(&mut self) -> X<()> {
        let p = self.p.clone();
        loop {
            self.steps += 1;
            if self.steps > self.cfg.max_steps { return Err(Stop::Viol("steps".into(), format!("more than {} instructions in {}", self.cfg.max_steps, self.loc()))); }
            let fr = self.frames.last_mut().unwrap();
            let blk = &p.m.funcs[fr.f as usize].blocks[fr.blk as usize];
            let ins = &blk.insts[fr.ip];
            fr.ip += 1;
            self.cur_dbg = ins.dbg;
            match &ins.i {
                I::Bin(op, t, a, b) => { let (x, y) = (self.op(*a)?, self.op(*b)?); let r = self.bin(*op, *t, &x, &y)?; self.set(ins.dst, r); }
                I::ICmp(pr, t, a, b) => { let (x, y) = (self.op(*a)?, self.op(*b)?); let r = self.icmp(*pr, *t, &x, &y)?; self.set(ins.dst, r); }
                I::FCmp(pr, t, a, b) => { let (x, y) = (self.op(*a)?, self.op(*b)?); let (x, y) = (self.cv(&x)?, self.cv(&y)?); let (x, y) = (self.tof(*t, x), self.tof(*t, y)); let r = fcmp(pr, x, y); self.set(ins.dst, V::C(r as u64)); }
                I::FNeg(t, a) => { let x = self.op(*a)?; let x = self.cv(&x)?; let f = -self.tof(*t, x); let r = self.fromf(*t, f); self.set(ins.dst, V::C(r)); }
                I::Cast(c, t1, t2, a) => { let x = self.op(*a)?; let r = self.cast(*c, *t1, *t2, &x)?; self.set(ins.dst, r); }
                I::Select(ct, t, c, a, b) => {
                    let (c, x, y) = (self.op(*c)?, self.op(*a)?, self.op(*b)?);
                    let r = if let Ty::Vector(n, _) = p.m.tys[*ct as usize] {
                        let (cv, xv, yv) = match (&c, &x, &y) { (V::A(c), V::A(x), V::A(y)) => (c, x, y), _ => return Err(Stop::Incon("vsel".into())) };
                        let et = if let Ty::Vector(_, e) = p.m.tys[*t as usize] { e } else { return Err(Stop::Incon("vsel".into())) };
                        let mut v = vec![];
                        for i in 0..n as usize { v.push(self.select(et, &cv[i], &xv[i], &yv[i])?); }
                        V::A(Rc::new(v))
                    } else { self.select(*t, &c, &x, &y)? };
                    self.set(ins.dst, r);
                }
                I::Load(t, a) => {
                    let x = self.op(*a)?;
                    let r = match x { V::C(a) => self.load(a, *t)?, V::S(e) => self.load_sym(e, *t)?, _ => return Err(Stop::Incon("load".into())) };
                    self.set(ins.dst, r);
                }
                I::Store(t, v, a) => { let (v, a) = (self.op(*v)?, self.op(*a)?); let a = self.addr(&a)?; self.store(a, *t, &v)?; }
                I::Gep(b, off, terms) => {
                    let mut r = self.op(*b)?;
                    if let V::A(_) = r { return Err(Stop::Incon("vector gep".into())); }
                    if *off != 0 { r = self.addk(&r, *off); }
                    for (o, w, sc) in terms {
                        let x = self.op(*o)?;
                        match (&r, &x) {
                            (V::C(b), V::C(i)) => r = V::C(b.wrapping_add((sx64(*i, *w)).wrapping_mul(*sc) as u64)),
                            (_, V::A(_)) => return Err(Stop::Incon("vector gep".into())),
                            _ => {
                                let i = self.e(&x, *w);
                                let i = self.ar.sext(i, 64);
                                let k = self.ar.c(64, *sc as u64 as u128);
                                let m = self.ar.bin(Op::Mul, i, k);
                                let b = self.e(&r, 64);
                                let s = self.ar.bin(Op::Add, b, m);
                                r = self.v(s);
                            }
                        }
                    }
                    self.set(ins.dst, r);
                }
                I::Alloca(sz, cnt) => {
                    let n = match cnt { None => 1, Some((o, _)) => { let v = self.op(*o)?; self.cv(&v)? } };
                    let a = self.alloc_stack(*sz * n);
                    self.frames.last_mut().unwrap().allocas.push(hi32(a));
                    self.set(ins.dst, V::C(a));
                }
                I::Call { callee, args, ret, normal } => {
                    let f = match callee {
                        Callee::Fn(f) => *f,
                        Callee::Ptr(o) => {
                            let v = self.op(*o)?;
                            let a = self.cv(&v)?;
                            let id = hi32(a);
                            if id < p.fn_base || id >= p.nbase || a & 0xffff_ffff != 0 { return self.ub("call through an invalid function pointer"); }
                            id - p.fn_base
                        }
                        Callee::Asm(s) => { if s.is_empty() || (s.starts_with("/*") && s.ends_with("*/")) { if ins.dst != NODST { let v = if let Some(a) = args.get(0) { self.op(a.1)? } else { V::C(0) }; self.set(ins.dst, v); } continue; } return Err(Stop::Incon(format!("inline asm {}", s))); }
                    };
                    let bi = p.bi[f as usize];
                    let fu = &p.m.funcs[f as usize];
                    let mut av = Vec::with_capacity(args.len());
                    for (_, o) in args { av.push(self.op(*o)?); }
                    if bi == Bi::Undef && fu.defined {
                        self.push_frame(f, av, ins.dst, *normal)?;
                    } else {
                        let r = self.builtin(bi, f, &av, args, *ret)?;
                        if let Some(v) = r { self.set(ins.dst, v); }
                        if let Some(n) = normal { self.goto(*n)?; }
                    }
                }
                I::Br(b) => self.goto(*b)?,
                I::CondBr(c, a, b) => {
                    let v = self.op(*c)?;
                    let t = match v { V::C(x) => x & 1 != 0, V::S(e) => self.branch(e)?, _ => return Err(Stop::Incon("br".into())) };
                    self.goto(if t { *a } else { *b })?;
                }
                I::Switch(w, c, d, cs) => {
                    let v = self.op(*c)?;
                    let t = match v {
                        V::C(x) => { let x = mk(*w, x); cs.iter().find(|k| mk(*w, k.0) == x).map(|k| k.1).unwrap_or(*d) }
                        V::S(e) => self.switch(*w, e, *d, cs)?,
                        _ => return Err(Stop::Incon("switch".into())),
                    };
                    self.goto(t)?;
                }
                I::Ret(o) => { let v = match o { Some(o) => Some(self.op(*o)?), None => None }; if self.do_ret(v)? { return Ok(()); } }
                I::Unreachable => return self.ub("unreachable executed"),
                I::ExtractValue(o, ix) => {
                    let mut v = self.op(*o)?;
                    for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Incon("extractvalue".into())) }; }
                    self.set(ins.dst, v);
                }
                I::InsertValue(_, o, x, ix) => { let (v, x) = (self.op(*o)?, self.op(*x)?); let r = insert(&v, &x, ix); self.set(ins.dst, r); }
                I::ExtractElement(o, i) => { let v = self.op(*o)?; let i = self.op(*i)?; let i = self.cv(&i)? as usize; let r = match &v { V::A(x) => x[i].clone(), _ => return Err(Stop::Incon("ee".into())) }; self.set(ins.dst, r); }
                I::InsertElement(_, o, x, i) => { let (v, x, i) = (self.op(*o)?, self.op(*x)?, self.op(*i)?); let i = self.cv(&i)? as u32; let r = insert(&v, &x, &[i]); self.set(ins.dst, r); }
                I::Shuffle(a, b, mk) => {
                    let (x, y) = (self.op(*a)?, self.op(*b)?);
                    let r = match (&x, &y) { (V::A(x), V::A(y)) => mk.iter().map(|&i| if i < 0 { x[0].clone() } else if (i as usize) < x.len() { x[i as usize].clone() } else { y[i as usize - x.len()].clone() }).collect(), _ => return Err(Stop::Incon("shuf".into())) };
                    self.set(ins.dst, V::A(Rc::new(r)));
                }
                I::AtomicRmw(o, t, a, v) => {
                    let (a, v) = (self.op(*a)?, self.op(*v)?);
                    let a = self.addr(&a)?;
                    let old = self.load(a, *t)?;
                    let new = match o.as_str() {
                        "xchg" => v,
                        "add" => self.bin(BinOp::Add, *t, &old, &v)?,
                        "sub" => self.bin(BinOp::Sub, *t, &old, &v)?,
                        "and" => self.bin(BinOp::And, *t, &old, &v)?,
                        "or" => self.bin(BinOp::Or, *t, &old, &v)?,
                        "xor" => self.bin(BinOp::Xor, *t, &old, &v)?,
                        "umax" | "umin" | "max" | "min" => { let pr = match o.as_str() { "umax" => Pred::Ugt, "umin" => Pred::Ult, "max" => Pred::Sgt, _ => Pred::Slt }; let c = self.icmp(pr, *t, &old, &v)?; self.select(*t, &c, &old, &v)? }
                        o => return Err(Stop::Incon(format!("atomicrmw {}", o))),
                    };
                    self.store(a, *t, &new)?;
                    self.set(ins.dst, old);
                }
                I::CmpXchg(t, a, x, y) => {
                    let (a, x, y) = (self.op(*a)?, self.op(*x)?, self.op(*y)?);
                    let a = self.addr(&a)?;
                    let old = self.load(a, *t)?;
                    let c = self.icmp(Pred::Eq, *t, &old, &x)?;
                    let b = match c { V::C(k) => k != 0, V::S(e) => self.branch(e)?, _ => false };
                    if b { self.store(a, *t, &y)?; }
                    self.set(ins.dst, V::A(Rc::new(vec![old, V::C(b as u64)])));
                }
                I::Freeze(o) => { let v = self.op(*o)?; self.set(ins.dst, v); }
                I::Nop => {}
                I::Unsupported(s) => return Err(Stop::Incon(format!("unsupported instruction {}", s))),
            }
        }
    }
    fn addk(&mut self, v: &V, k: i64) -> V {
        match v {
            V::C(b) => V::C(b.wrapping_add(k as u64)),
            _ => { let b = self.e(v, 64); let k = self.ar.c(64, k as u64 as u128); let r = self.ar.bin(Op::Add, b, k); self.v(r) }
        }
    }
    fn switch(&mut self, w: u32, e: E, d: u32, cs: &[(u64, u32)]) -> X<u32> {
        let tag = self.tag(e);
        // group by target
        let mut tg: Vec<(u32, Vec<u64>)> = vec![];
        for (v, t) in cs { if *t == d { continue; } match tg.iter_mut().find(|x| x.0 == *t) { Some(x) => x.1.push(*v), None => tg.push((*t, vec![*v])) } }
        tg.sort();
        let mut conds: Vec<(u32, E)> = vec![];
        let mut any = self.ar.c(1, 0);
        for (t, vs) in &tg {
            let mut vs: Vec<u64> = vs.iter().map(|v| mk(w, *v)).collect();
            vs.sort_unstable();
            let mut c = self.ar.c(1, 0);
            let mut i = 0;
            while i < vs.len() {
                let mut j = i;
                while j + 1 < vs.len() && vs[j + 1] == vs[j] + 1 { j += 1; }
                let q = if i == j { let k = self.ar.c(w, vs[i] as u128); self.ar.bin(Op::Eq, e, k) } else {
                    let (a, b) = (self.ar.c(w, vs[i] as u128), self.ar.c(w, vs[j] as u128));
                    let x = self.ar.bin(Op::Ule, a, e); let y = self.ar.bin(Op::Ule, e, b); self.ar.bin(Op::And, x, y)
                };
                c = self.ar.bin(Op::Or, c, q);
                i = j + 1;
            }
            any = self.ar.bin(Op::Or, any, c);
            conds.push((*t, c));
        }
        let none = self.ar.not1(any);
        conds.push((d, none));
        if let Some(x) = self.next_prefix() {
            return match x {
                D::Sw(i, t) if t == tag && (i as usize) < conds.len() => { let (b, c) = conds[i as usize]; self.add_pc(c); Ok(b) }
                _ => self.diverge("switch"),
            };
        }
        self.ar.new_eval();
        let mut mine = usize::MAX;
        for (i, (_, c)) in conds.iter().enumerate() { if self.ev(*c) != 0 { mine = i; break; } }
        if mine == usize::MAX { return Err(Stop::Incon("switch model".into())); }
        for i in 0..conds.len() {
            if i != mine && self.ar.konst(conds[i].1) != Some(0) {
                if let Some(m) = self.feasible(conds[i].1)? { self.push_item(D::Sw(i as u32, tag), m); }
            }
        }
        self.choices.push(D::Sw(mine as u32, tag));
        let (b, c) = conds[mine];
        self.add_pc(c);
        Ok(b)
    }
    fn select(&mut self, t: TyId, c: &V, x: &V, y: &V) -> X<V> {
        let e = match c { V::C(k) => return Ok(if k & 1 != 0 { x.clone() } else { y.clone() }), V::S(e) => *e, _ => return Err(Stop::Incon("select".into())) };
        if same(x, y) { return Ok(x.clone()); }
        let e = self.simp(e);
        if let Some(b) = self.ar.konst(e) { return Ok(if b != 0 { x.clone() } else { y.clone() }); }
        let p = self.p.clone();
        match &p.m.tys[t as usize] {
            Ty::Int(w) => { let (a, b) = (self.e(x, *w), self.e(y, *w)); let r = self.ar.ite(e, a, b); Ok(self.v(r)) }
            Ty::Ptr => {
                if let (V::C(a), V::C(b)) = (x, y) { if hi32(*a) == hi32(*b) && hi32(*a) >= p.nbase {
                    let (a, b) = (self.ar.c(64, *a as u128), self.ar.c(64, *b as u128)); let r = self.ar.ite(e, a, b); return Ok(self.v(r)); } }
                Ok(if self.branch(e)? { x.clone() } else { y.clone() })
            }
            _ => Ok(if self.branch(e)? { x.clone() } else { y.clone() }),
        }
    }
    fn tof(&self, t: TyId, x: u64) -> f64 { if self.p.m.tys[t as usize] == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) } }
    fn fromf(&self, t: TyId, f: f64) -> u64 { if self.p.m.tys[t as usize] == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() } }
    fn bin(&mut self, op: BinOp, t: TyId, x: &V, y: &V) -> X<V> {
        let p = self.p.clone();
        let w = match &p.m.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Vector(n, et) => {
                if let (V::A(a), V::A(b)) = (x, y) {
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..a.len() { v.push(self.bin(op, *et, &a[i], &b[i])?); }
                    return Ok(V::A(Rc::new(v)));
                }
                return Err(Stop::Incon("vbin".into()));
            }
            Ty::F32 | Ty::F64 => {
                let (a, b) = (self.cv(x)?, self.cv(y)?);
                if p.m.tys[t as usize] == Ty::F32 {
                    let (a, b) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    let r = match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b };
                    return Ok(V::C(r.to_bits() as u64));
                }
                let (a, b) = (f64::from_bits(a), f64::from_bits(b));
                let r = match op { BinOp::FAdd => a + b, BinOp::FSub => a - b, BinOp::FMul => a * b, BinOp::FDiv => a / b, _ => a % b };
                return Ok(V::C(r.to_bits()));
            }
            _ => 64,
        };
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match op {
                BinOp::Add => a.wrapping_add(b),
                BinOp::Sub => a.wrapping_sub(b),
                BinOp::Mul => a.wrapping_mul(b),
                BinOp::UDiv => { if b == 0 { return self.ub("division by zero"); } a / b }
                BinOp::URem => { if b == 0 { return self.ub("division by zero"); } a % b }
                BinOp::SDiv => { if b == 0 { return self.ub("division by zero"); } sx64(a, w).wrapping_div(sx64(b, w)) as u64 }
                BinOp::SRem => { if b == 0 { return self.ub("division by zero"); } sx64(a, w).wrapping_rem(sx64(b, w)) as u64 }
                BinOp::And => a & b,
                BinOp::Or => a | b,
                BinOp::Xor => a ^ b,
                BinOp::Shl => if b >= w as u64 { 0 } else { a << b },
                BinOp::LShr => if b >= w as u64 { 0 } else { a >> b },
                BinOp::AShr => (sx64(a, w) >> b.min(w as u64 - 1)) as u64,
                _ => return Err(Stop::Incon("float op".into())),
            };
            return Ok(V::C(mk(w, r)));
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
            BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, _ => return Err(Stop::Incon("float op".into())),
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            let z = self.ar.c(w, 0);
            let c = self.ar.bin(Op::Eq, b, z);
            if self.branch(c)? { return self.ub("division by zero"); }
        }
        let r = self.ar.bin(o, a, b);
        Ok(self.v(r))
    }
    fn icmp(&mut self, pr: Pred, t: TyId, x: &V, y: &V) -> X<V> {
        let p = self.p.clone();
        let w = match &p.m.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Vector(_, et) => {
                if let (V::A(a), V::A(b)) = (x, y) { let mut v = vec![]; for i in 0..a.len() { v.push(self.icmp(pr, *et, &a[i], &b[i])?); } return Ok(V::A(Rc::new(v))); }
                return Err(Stop::Incon("vicmp".into()));
            }
            _ => 64,
        };
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (mk(w, *a), mk(w, *b));
            let (sa, sb) = (sx64(a, w), sx64(b, w));
            let r = match pr { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb };
            return Ok(V::C(r as u64));
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match pr {
            Pred::Eq => self.ar.bin(Op::Eq, a, b),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, a, b); self.ar.not1(e) }
            Pred::Ugt => self.ar.bin(Op::Ult, b, a), Pred::Uge => self.ar.bin(Op::Ule, b, a), Pred::Ult => self.ar.bin(Op::Ult, a, b), Pred::Ule => self.ar.bin(Op::Ule, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a), Pred::Sge => self.ar.bin(Op::Sle, b, a), Pred::Slt => self.ar.bin(Op::Slt, a, b), Pred::Sle => self.ar.bin(Op::Sle, a, b),
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, c: CastOp, t1: TyId, t2: TyId, x: &V) -> X<V> {
        let p = self.p.clone();
        if c == CastOp::BitCast {
            let (v1, v2) = (matches!(p.m.tys[t1 as usize], Ty::Vector(..)), matches!(p.m.tys[t2 as usize], Ty::Vector(..)));
            if !v1 && !v2 { return Ok(x.clone()); }
            let w1 = if let Ty::Vector(_, e) = p.m.tys[t1 as usize] { p.m.bits(e) } else { p.m.bits(t1) };
            let w2 = if let Ty::Vector(_, e) = p.m.tys[t2 as usize] { p.m.bits(e) } else { p.m.bits(t2) };
            let els: Vec<V> = if let V::A(a) = x { a.as_ref().clone() } else { vec![x.clone()] };
            let mut out = vec![];
            if w1 == w2 { out = els; }
            else if w1 > w2 { for e in els { if let V::A(s) = self.split(&e, w1, w2)? { out.extend(s.iter().cloned()); } } }
            else { let k = (w2 / w1) as usize; for ch in els.chunks(k) { let j = V::A(Rc::new(ch.to_vec())); out.push(self.join(&j, w1)?); } }
            return Ok(if v2 { V::A(Rc::new(out)) } else { out[0].clone() });
        }
        if let Ty::Vector(_, et1) = p.m.tys[t1 as usize] {
            let et2 = if let Ty::Vector(_, e) = p.m.tys[t2 as usize] { e } else { return Err(Stop::Incon("vcast".into())) };
            if let V::A(a) = x { let mut v = vec![]; for y in a.iter() { v.push(self.cast(c, et1, et2, y)?); } return Ok(V::A(Rc::new(v))); }
            return Err(Stop::Incon("vcast".into()));
        }
        let (w1, w2) = (p.m.bits(t1), p.m.bits(t2));
        match c {
            CastOp::Trunc | CastOp::ZExt | CastOp::SExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if let V::C(k) = x {
                    if w2 <= 64 { return Ok(V::C(if c == CastOp::SExt { mk(w2, sx64(*k, w1) as u64) } else { mk(w2, *k) })); }
                }
                let e = self.e(x, w1);
                let r = if w1 == w2 { e } else if w2 < w1 { self.ar.extract(e, 0, w2) } else if c == CastOp::SExt { self.ar.sext(e, w2) } else { self.ar.zext(e, w2) };
                Ok(self.v(r))
            }
            _ => {
                let k = self.cv(x)?;
                Ok(V::C(match c {
                    CastOp::UiToFp => self.fromf_int(t2, mk(w1, k) as i128),
                    CastOp::SiToFp => self.fromf_int(t2, sx64(k, w1) as i128),
                    CastOp::FpToUi => mk(w2, self.tof(t1, k) as u64),
                    CastOp::FpToSi => mk(w2, self.tof(t1, k) as i64 as u64),
                    CastOp::FpExt | CastOp::FpTrunc => { let f = self.tof(t1, k); self.fromf(t2, f) }
                    _ => return Err(Stop::Incon("cast".into())),
                }))
            }
        }
    }
    fn fromf_int(&self, t: TyId, v: i128) -> u64 { if self.p.m.tys[t as usize] == Ty::F32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() } }
    fn builtin(&mut self, bi: Bi, f: u32, a: &[V], args: &[(TyId, Opnd)], ret: TyId) -> X<Option<V>> {
        use Bi::*;
        let p = self.p.clone();
        // element-wise lifting of vector intrinsics
        if let Some((t0, _)) = args.get(0) {
            if let Ty::Vector(n, et) = p.m.tys[*t0 as usize] {
                if matches!(bi, Ctlz | Cttz | Ctpop | Bswap | Bitrev | Fshl | Fshr | UMin | UMax | SMin | SMax | Abs | USubSat | UAddSat | SSubSat | SAddSat) {
                    let ert = if let Ty::Vector(_, e) = p.m.tys[ret as usize] { e } else { ret };
                    let mut out = vec![];
                    for i in 0..n as usize {
                        let mut ea = vec![];
                        let mut et_args = vec![];
                        for (j, v) in a.iter().enumerate() { match v { V::A(x) => { ea.push(x[i].clone()); et_args.push((et, args[j].1)); } v => { ea.push(v.clone()); et_args.push(args[j]); } } }
                        out.push(self.builtin(bi, f, &ea, &et_args, ert)?.unwrap());
                    }
                    return Ok(Some(V::A(Rc::new(out))));
                }
                if matches!(bi, RedAdd | RedOr | RedAnd | RedXor | RedUMax | RedUMin) {
                    let x = if let V::A(x) = &a[0] { x.clone() } else { return Err(Stop::Incon("red".into())) };
                    let mut r = x[0].clone();
                    for y in x.iter().skip(1) {
                        r = match bi {
                            RedAdd => self.bin(BinOp::Add, et, &r, y)?, RedOr => self.bin(BinOp::Or, et, &r, y)?, RedAnd => self.bin(BinOp::And, et, &r, y)?, RedXor => self.bin(BinOp::Xor, et, &r, y)?,
                            _ => { let c = self.icmp(if bi == RedUMax { Pred::Ugt } else { Pred::Ult }, et, &r, y)?; self.select(et, &c, &r, y)? }
                        };
                    }
                    return Ok(Some(r));
                }
            }
        }
        let w = args.get(0).map(|x| p.m.bits(x.0)).unwrap_or(64);
        let t0 = args.get(0).map(|x| x.0).unwrap_or(0);
        let r = match bi {
            Nop | Assume => return Ok(None),
            Ident => a[0].clone(),
            RetOne => V::C(1),
            IsConst => V::C(0),
            ObjSize => V::C(if matches!(a.get(1), Some(V::C(1))) { 0 } else { u64::MAX }),
            Malloc => V::C(self.heap_alloc(&a[0])?),
            Calloc => {
                let t = args[0].0;
                let m = self.bin(BinOp::Mul, t, &a[0], &a[1])?;
                V::C(self.heap_alloc(&m)?)
            }
            MemAlign => { let n = self.heap_alloc(&a[2])?; let d = self.cv(&a[0])?; self.store_int(d, 64, &V::C(n))?; V::C(0) }
            Realloc => {
                let old = self.cv(&a[0])?;
                let n = self.heap_alloc(&a[1])?;
                if old != 0 {
                    let os = self.obj(hi32(old))?.data.len() as u64;
                    let ns = self.obj(hi32(n))?.data.len() as u64;
                    self.memcpy(n, old, os.min(ns))?;
                    self.objs[hi32(old) as usize] = None;
                }
                V::C(n)
            }
            Free => {
                let o = self.cv(&a[0])?;
                if o != 0 { self.obj(hi32(o))?; if o & 0xffff_ffff != 0 || hi32(o) < p.nbase { return self.ub("invalid free"); } self.objs[hi32(o) as usize] = None; }
                return Ok(None);
            }
            MemCpy | MemMove => {
                let n = self.cv(&a[2])?;
                if n > 0 { let (d, s) = (self.cv(&a[0])?, self.cv(&a[1])?); self.memcpy(d, s, n)?; }
                a[0].clone()
            }
            MemSet => {
                let n = self.cv(&a[2])?;
                if n > 0 {
                    let d = self.cv(&a[0])?;
                    self.chk(d, n)?;
                    let b = match &a[1] { V::C(x) => V::C(x & 255), V::S(e) => { let e = self.ar.extract(*e, 0, 8); self.v(e) } v => v.clone() };
                    if let V::C(x) = b {
                        let off = (d & 0xffff_ffff) as usize;
                        if self.objs[hi32(d) as usize].as_ref().unwrap().ro { return self.ub("memset of read-only memory"); }
                        let o = Rc::make_mut(self.objs[hi32(d) as usize].as_mut().unwrap());
                        o.data[off..off + n as usize].fill(x as u8);
                        if let Some(s) = &mut o.sym { s[off..off + n as usize].fill(0); }
                    } else { for i in 0..n { self.store_int(d + i, 8, &b)?; } }
                }
                a[0].clone()
            }
            MemCmp | Bcmp => {
                let n = self.cv(&a[2])?;
                if n == 0 { return Ok(Some(V::C(0))); }
                let (x, y) = (self.cv(&a[0])?, self.cv(&a[1])?);
                self.chk(x, n)?;
                self.chk(y, n)?;
                if bi == Bcmp {
                    let mut ne = self.ar.c(1, 0);
                    for i in 0..n {
                        let (b, c) = (self.byte(x + i)?, self.byte(y + i)?);
                        let q = self.ar.bin(Op::Eq, b, c);
                        let q = self.ar.not1(q);
                        if self.ar.konst(q) == Some(1) { return Ok(Some(V::C(1))); }
                        ne = self.ar.bin(Op::Or, ne, q);
                    }
                    let r = self.ar.zext(ne, 32);
                    self.v(r)
                } else {
                    let mut r = self.ar.c(32, 0);
                    for i in (0..n).rev() {
                        let (b, c) = (self.byte(x + i)?, self.byte(y + i)?);
                        let eq = self.ar.bin(Op::Eq, b, c);
                        let (b2, c2) = (self.ar.zext(b, 32), self.ar.zext(c, 32));
                        let d = self.ar.bin(Op::Sub, b2, c2);
                        r = self.ar.ite(eq, r, d);
                    }
                    self.v(r)
                }
            }
            StrLen => {
                let x = self.cv(&a[0])?;
                let mut i = 0;
                loop { let v = self.load_int(x + i, 8)?; if self.cv(&v)? == 0 { break; } i += 1; }
                V::C(i)
            }
            Errno => {
                if self.errno == 0 { self.errno = self.alloc(8); }
                V::C(self.errno)
            }
            Ctpop => match &a[0] { V::C(x) => V::C(x.count_ones() as u64), v => {
                let e = self.e(v, w); let mut r = self.ar.c(w, 0);
                for i in 0..w { let b = self.ar.extract(e, i, 1); let b = self.ar.zext(b, w); r = self.ar.bin(Op::Add, r, b); } self.v(r) } },
            Ctlz | Cttz => match &a[0] {
                V::C(x) => { let x = mk(w, *x); V::C(if bi == Ctlz { (x.leading_zeros() as u64 + w as u64).saturating_sub(64).min(w as u64) } else { (x.trailing_zeros() as u64).min(w as u64) }) }
                v => {
                    let e = self.e(v, w);
                    let mut r = self.ar.c(w, w as u128);
                    for k in 0..w {
                        // process so that the decisive bit is applied last
                        let i = if bi == Ctlz { k } else { w - 1 - k };
                        let b = self.ar.extract(e, i, 1);
                        let kk = self.ar.c(w, if bi == Ctlz { w - 1 - i } else { i } as u128);
                        r = self.ar.ite(b, kk, r);
                    }
                    self.v(r)
                }
            },
            Bswap => match &a[0] { V::C(x) => V::C(mk(w, x.swap_bytes() >> (64 - w))), v => {
                let e = self.e(v, w); let mut r = self.ar.extract(e, 0, 8);
                for i in 1..w / 8 { let b = self.ar.extract(e, i * 8, 8); r = self.ar.concat(r, b); } self.v(r) } },
            Bitrev => match &a[0] { V::C(x) => V::C(mk(w, x.reverse_bits() >> (64 - w))), v => {
                let e = self.e(v, w); let mut r = self.ar.extract(e, 0, 1);
                for i in 1..w { let b = self.ar.extract(e, i, 1); r = self.ar.concat(r, b); } self.v(r) } },
            Fshl | Fshr => {
                let (x, y, s) = (self.e(&a[0], w), self.e(&a[1], w), self.e(&a[2], w));
                let kw = self.ar.c(w, w as u128);
                let s = self.ar.bin(Op::URem, s, kw);
                let inv = self.ar.bin(Op::Sub, kw, s);
                let z = self.ar.c(w, 0);
                let iz = self.ar.bin(Op::Eq, s, z);
                let r = if bi == Fshl { let p = self.ar.bin(Op::Shl, x, s); let q = self.ar.bin(Op::LShr, y, inv); let o = self.ar.bin(Op::Or, p, q); self.ar.ite(iz, x, o) }
                    else { let p = self.ar.bin(Op::LShr, y, s); let q = self.ar.bin(Op::Shl, x, inv); let o = self.ar.bin(Op::Or, p, q); self.ar.ite(iz, y, o) };
                self.v(r)
            }
            UMin | UMax | SMin | SMax => {
                let pr = match bi { UMin => Pred::Ult, UMax => Pred::Ugt, SMin => Pred::Slt, _ => Pred::Sgt };
                let c = self.icmp(pr, t0, &a[0], &a[1])?;
                self.select(t0, &c, &a[0], &a[1])?
            }
            Abs => { let c = self.icmp(Pred::Slt, t0, &a[0], &V::C(0))?; let n = self.bin(BinOp::Sub, t0, &V::C(0), &a[0])?; self.select(t0, &c, &n, &a[0])? }
            AddOv | SubOv | MulOv | SAddOv | SSubOv | SMulOv => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let (v, o) = match bi {
                    AddOv => { let s = self.ar.bin(Op::Add, x, y); let o = self.ar.bin(Op::Ult, s, x); (s, o) }
                    SubOv => { let s = self.ar.bin(Op::Sub, x, y); let o = self.ar.bin(Op::Ult, x, y); (s, o) }
                    MulOv => {
                        if w > 64 {
                            let (kx, ky) = (self.ar.konst(x), self.ar.konst(y));
                            match (kx, ky) { (Some(a), Some(b)) if w == 128 => { let (r, o) = a.overflowing_mul(b); (self.ar.c(128, r), self.ar.c(1, o as u128)) } _ => return Err(Stop::Incon("wide mul".into())) }
                        } else {
                            // no overflow when the ranges say so
                            let (rx, ry) = (self.ar.rng[x as usize].hi, self.ar.rng[y as usize].hi);
                            if rx * ry <= mask(w) { let s = self.ar.bin(Op::Mul, x, y); (s, self.ar.c(1, 0)) } else {
                            let (a2, b2) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                            let m = self.ar.bin(Op::Mul, a2, b2);
                            let hi = self.ar.extract(m, w, w);
                            let z = self.ar.c(w, 0);
                            let o = self.ar.bin(Op::Eq, hi, z);
                            let o = self.ar.not1(o);
                            (self.ar.bin(Op::Mul, x, y), o) }
                        }
                    }
                    SAddOv | SSubOv => {
                        if w > 127 { return Err(Stop::Incon("wide sadd".into())); }
                        let (a2, b2) = (self.ar.sext(x, w + 1), self.ar.sext(y, w + 1));
                        let s = self.ar.bin(if bi == SAddOv { Op::Add } else { Op::Sub }, a2, b2);
                        let l = self.ar.extract(s, 0, w);
                        let l2 = self.ar.sext(l, w + 1);
                        let q = self.ar.bin(Op::Eq, l2, s);
                        (l, self.ar.not1(q))
                    }
                    _ => {
                        if w > 64 { return Err(Stop::Incon("wide smul".into())); }
                        let (a2, b2) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                        let s = self.ar.bin(Op::Mul, a2, b2);
                        let l = self.ar.extract(s, 0, w);
                        let l2 = self.ar.sext(l, 2 * w);
                        let q = self.ar.bin(Op::Eq, l2, s);
                        (l, self.ar.not1(q))
                    }
                };
                let (v, o) = (self.v(v), self.v(o));
                V::A(Rc::new(vec![v, o]))
            }
            USubSat => { let c = self.icmp(Pred::Ult, t0, &a[0], &a[1])?; let s = self.bin(BinOp::Sub, t0, &a[0], &a[1])?; self.select(t0, &c, &V::C(0), &s)? }
            SAddSat | SSubSat => {
                let add = matches!(bi, SAddSat);
                let s = self.bin(if add { BinOp::Add } else { BinOp::Sub }, t0, &a[0], &a[1])?;
                // overflow: operands of the same (other) sign and a result of another sign than the first
                let x = self.bin(BinOp::Xor, t0, &a[0], &s)?;
                let y = if add { self.bin(BinOp::Xor, t0, &a[1], &s)? } else { self.bin(BinOp::Xor, t0, &a[0], &a[1])? };
                let o = self.bin(BinOp::And, t0, &x, &y)?;
                let c = self.icmp(Pred::Slt, t0, &o, &V::C(0))?;
                let n = self.icmp(Pred::Slt, t0, &a[0], &V::C(0))?;
                let sat = self.select(t0, &n, &V::C(mk(w, 1u64 << (w - 1))), &V::C(mk(w, (1u64 << (w - 1)) - 1)))?;
                self.select(t0, &c, &sat, &s)?
            }
            UAddSat => { let s = self.bin(BinOp::Add, t0, &a[0], &a[1])?; let c = self.icmp(Pred::Ult, t0, &s, &a[0])?; self.select(t0, &c, &V::C(mk(w, u64::MAX)), &s)? }
            UCmp | SCmp => {
                let rw = p.m.bits(ret);
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let lt = self.ar.bin(if bi == UCmp { Op::Ult } else { Op::Slt }, x, y);
                let eq = self.ar.bin(Op::Eq, x, y);
                let (m1, z, o) = (self.ar.c(rw, u128::MAX), self.ar.c(rw, 0), self.ar.c(rw, 1));
                let r = self.ar.ite(eq, z, o);
                let r = self.ar.ite(lt, m1, r);
                self.v(r)
            }
            LoadRel => {
                let b = self.cv(&a[0])?;
                let o = self.cv(&a[1])?;
                let v = self.load_int(b.wrapping_add(o), 32)?;
                let v = self.cv(&v)?;
                V::C(b.wrapping_add(v << 32))
            }
            Floor | Ceil | Trunc | Rint | Sqrt | Fabs => {
                let x = self.cv(&a[0])?;
                let f = self.tof(t0, x);
                let g = match bi { Floor => f.floor(), Ceil => f.ceil(), Trunc => f.trunc(), Sqrt => f.sqrt(), Fabs => f.abs(), _ => { let r = f.round(); if (f - f.trunc()).abs() == 0.5 { 2.0 * (f / 2.0).round() } else { r } } };
                V::C(self.fromf(t0, g))
            }
            FpToUiSat | FpToSiSat => {
                let x = self.cv(&a[0])?;
                let f = self.tof(t0, x);
                let rw = p.m.bits(ret);
                V::C(if bi == FpToUiSat { (f as u64).min(mk(rw, u64::MAX)) } else { let lim = (1i128 << (rw - 1)) - 1; mk(rw, (f as i64 as i128).clamp(-lim - 1, lim) as i64 as u64) })
            }
            Trap | Abort => return Err(Stop::Viol("abort".into(), format!("abort in {}", self.loc()))),
            PanicFmt | PanicOther => {
                let mut msg = p.m.funcs[f as usize].name.clone();
                if bi == PanicFmt { if let Some(V::C(l)) = a.last() { if let Ok(s) = self.panic_loc(*l) { msg = s; } } }
                return Err(Stop::Viol("panic".into(), msg));
            }
            SymVar => {
                let bits = self.cv(&a[0])? as u32;
                let name = self.str_arg(&a[1..3])?;
                let lo = self.cv(&a[3])?;
                let hi = self.cv(&a[4])?.min(mask(bits) as u64);
                if lo > hi { return Err(Stop::Infeasible); }
                let ord = self.vars.len() as u32;
                self.vars.push((name, bits, lo, hi));
                let e = self.ar.var(ord, bits, lo, hi);
                let e = self.ar.zext(e, 64);
                V::S(e)
            }
            SymAssume => { let c = self.e(&a[0], w); let c = if w > 1 { self.ar.extract(c, 0, 1) } else { c }; self.assume(c)?; return Ok(None); }
            SymFail => { let m = self.str_arg(a)?; return Err(Stop::Viol("assert".into(), m)); }
            SymReach => { let m = self.str_arg(a)?; self.path_reach.insert(m); return Ok(None); }
            SymLog => {
                let m = self.str_arg(a)?;
                if self.cfg.trace {
                    let v = if a.len() > 2 { self.ar.new_eval(); match &a[2] { V::C(x) => format!("{}", x), V::S(e) => { let k = self.ev(*e); format!("{} = {}", self.ar.show(*e, 6), k) } _ => String::new() } } else { String::new() };
                    eprintln!("log: {} {}", m, v);
                }
                return Ok(None);
            }
            SymConc => V::C(self.cv(&a[0])?),
            SymIs => V::C(1),
            SymParam => {
                let m = self.str_arg(a)?;
                match self.cfg.params.get(&m) { Some(v) => V::C(*v), None => a[2].clone() }
            }
            Getenv => V::C(0),
            Write => {
                if self.cfg.trace { let (b, n) = (self.cv(&a[1])?, self.cv(&a[2])?); let s = self.read_bytes(b, n)?; eprint!("{}", String::from_utf8_lossy(&s)); }
                a[2].clone()
            }
            _ => {
                let _ = self.cstr_dummy();
                return Err(Stop::Incon(format!("unmodelled function {}", p.m.funcs[f as usize].name)));
            }
        };
        Ok(Some(r))
    }
    fn cstr_dummy(&self) {}
    fn panic_loc(&mut self, l: u64) -> X<String> {
        // Location { filename: &str (ptr,len), line: u32, col: u32 }
        let p = self.load_int(l, 64)?;
        let n = self.load_int(l + 8, 64)?;
        let line = self.load_int(l + 16, 32)?;
        let col = self.load_int(l + 20, 32)?;
        let (p, n, line, col) = (self.cv(&p)?, self.cv(&n)?, self.cv(&line)?, self.cv(&col)?);
        if n > 4096 { return Err(Stop::End); }
        let mut f = String::from_utf8_lossy(&self.read_bytes(p, n)?).into_owned();
        if f.ends_with('\0') { f.pop(); }
        Ok(format!("{}:{}:{}", f, line, col))
    }
    pub fn c_string(&mut self, a: u64) -> X<String> { self.cstr(a) }
}

pub fn short(n: &str) -> String {
    // crude v0 demangle: keep identifiers
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' { k += 1; }
            if l > 0 && k + l <= b.len() { if let Some(s) = n.get(k..k + l) { out.push(s); } i = k + l; continue; }
        }
        i += 1;
    }
    if out.len() > 5 { out = out[..5].to_vec(); }
    out.join("::")
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) { (V::C(x), V::C(y)) => x == y, (V::S(x), V::S(y)) => x == y, _ => false }
}
fn insert(v: &V, x: &V, ix: &[u32]) -> V {
    if ix.is_empty() { return x.clone(); }
    if let V::A(a) = v {
        let mut n = a.as_ref().clone();
        n[ix[0] as usize] = insert(&a[ix[0] as usize], x, &ix[1..]);
        V::A(Rc::new(n))
    } else { panic!("insert") }
}
fn fcmp(p: &str, x: f64, y: f64) -> bool {
    let u = x.is_nan() || y.is_nan();
    match p {
        "oeq" => !u && x == y, "ogt" => !u && x > y, "oge" => !u && x >= y, "olt" => !u && x < y, "ole" => !u && x <= y, "one" => !u && x != y, "ord" => !u,
        "ueq" => u || x == y, "ugt" => u || x > y, "uge" => u || x >= y, "ult" => u || x < y, "ule" => u || x <= y, "une" => u || x != y, "uno" => u,
        "true" => true, _ => false,
    }
}
