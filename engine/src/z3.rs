//! Thin dynamic binding to libz3 plus the query layer.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            pub fn load(path: &str) -> Result<Api, String> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 2);
                    if h.is_null() { return Err(format!("dlopen {}: {}", path, CStr::from_ptr(dlerror()).to_string_lossy())); }
                    Ok(Api { $($name: {
                        let s = CString::new(stringify!($name)).unwrap();
                        let f = dlsym(h, s.as_ptr());
                        if f.is_null() { return Err(format!("missing symbol {}", stringify!($name))); }
                        std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>(f)
                    },)* })
                }
            }
        }
    }
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context_rc: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, P);
    Z3_get_full_version: fn() -> *const c_char;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_inc_ref: fn(P, P);
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_reset: fn(P, P);
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_to_string: fn(P, P) -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(70);
}

#[derive(Clone)]
pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64,
    pub model_hits: u64, pub time: f64, pub max_time: f64,
}

pub struct Solver {
    api: std::sync::Arc<Api>,
    ctx: P,
    solver: P,
    bool_cache: FxMap<E, P>,
    bv_cache: FxMap<E, P>,
    num_cache: FxMap<(u128, u32), P>,
    cache: FxMap<(Vec<E>, E), Res>,
    pub stats: Stats,
    pub dump: Option<String>,
    pub trace: bool,
}

impl Solver {
    pub fn new(api: std::sync::Arc<Api>, timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = (api.Z3_mk_config)();
            let ctx = (api.Z3_mk_context_rc)(cfg);
            (api.Z3_set_error_handler)(ctx, on_error as *mut c_void);
            let s = CString::new("QF_BV").unwrap();
            let sym = (api.Z3_mk_string_symbol)(ctx, s.as_ptr());
            let solver = (api.Z3_mk_solver_for_logic)(ctx, sym);
            (api.Z3_solver_inc_ref)(ctx, solver);
            let prm = (api.Z3_mk_params)(ctx);
            (api.Z3_params_inc_ref)(ctx, prm);
            let t = CString::new("timeout").unwrap();
            (api.Z3_params_set_uint)(ctx, prm, (api.Z3_mk_string_symbol)(ctx, t.as_ptr()), timeout_ms);
            (api.Z3_solver_set_params)(ctx, solver, prm);
            Solver { api, ctx, solver, bool_cache: Default::default(), bv_cache: Default::default(), num_cache: Default::default(), cache: Default::default(), stats: Default::default(), dump: None, trace: std::env::var("RB_Q").is_ok() }
        }
    }
    fn keep(&self, p: P) -> P { unsafe { (self.api.Z3_inc_ref)(self.ctx, p); } p }
    fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bool_cache.get(&e) { return p; }
        let n = ar.nodes[e as usize];
        assert_eq!(n.w, 1);
        let api = self.api.clone();
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => if n.v != 0 { (api.Z3_mk_true)(c) } else { (api.Z3_mk_false)(c) },
                Op::Eq if ar.w(n.a) == 1 => { let (x, y) = (self.boolean(ar, n.a), self.boolean(ar, n.b)); (api.Z3_mk_eq)(c, x, y) }
                Op::Eq => { let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); (api.Z3_mk_eq)(c, x, y) }
                Op::Ult => { let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); (api.Z3_mk_bvult)(c, x, y) }
                Op::Ule => { let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); (api.Z3_mk_bvule)(c, x, y) }
                Op::Slt => { let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); (api.Z3_mk_bvslt)(c, x, y) }
                Op::Sle => { let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); (api.Z3_mk_bvsle)(c, x, y) }
                Op::And => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; (api.Z3_mk_and)(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; (api.Z3_mk_or)(c, 2, v.as_ptr()) }
                Op::Xor if ar.konst(n.b) == Some(1) => { let x = self.boolean(ar, n.a); (api.Z3_mk_not)(c, x) }
                Op::Xor => { let (x, y) = (self.boolean(ar, n.a), self.boolean(ar, n.b)); (api.Z3_mk_xor)(c, x, y) }
                Op::Ite => { let (p, x, y) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c)); (api.Z3_mk_ite)(c, p, x, y) }
                _ => {
                    let x = self.bv(ar, e);
                    let one = self.num(1, 1);
                    (api.Z3_mk_eq)(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.bool_cache.insert(e, r);
        r
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        if let Some(&p) = self.num_cache.get(&(v, w)) { return p; }
        let r = unsafe {
            let s = CString::new(v.to_string()).unwrap();
            let sort = (self.api.Z3_mk_bv_sort)(self.ctx, w);
            (self.api.Z3_inc_ref)(self.ctx, sort);
            (self.api.Z3_mk_numeral)(self.ctx, s.as_ptr(), sort)
        };
        let r = self.keep(r);
        self.num_cache.insert((v, w), r);
        r
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv_cache.get(&e) { return p; }
        let n = ar.nodes[e as usize];
        let w = n.w as u32;
        let api = self.api.clone();
        let c = self.ctx;
        let r = unsafe {
            macro_rules! b2 { ($f:ident) => {{ let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); (api.$f)(c, x, y) }} }
            match n.op {
                Op::Const => self.num(n.v, w),
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    (api.Z3_mk_const)(c, (api.Z3_mk_string_symbol)(c, s.as_ptr()), (api.Z3_mk_bv_sort)(c, w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.boolean(ar, e);
                    let (one, zero) = (self.num(1, 1), self.num(0, 1));
                    (api.Z3_mk_ite)(c, x, one, zero)
                }
                Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
                Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
                Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Ite => { let p = self.boolean(ar, n.a); let (x, y) = (self.bv(ar, n.b), self.bv(ar, n.c)); (api.Z3_mk_ite)(c, p, x, y) }
                Op::ZExt => { let x = self.bv(ar, n.a); (api.Z3_mk_zero_ext)(c, w - ar.w(n.a), x) }
                Op::SExt => { let x = self.bv(ar, n.a); (api.Z3_mk_sign_ext)(c, w - ar.w(n.a), x) }
                Op::Extract => { let x = self.bv(ar, n.a); (api.Z3_mk_extract)(c, n.v as u32 + w - 1, n.v as u32, x) }
            }
        };
        let r = self.keep(r);
        self.bv_cache.insert(e, r);
        r
    }
    /// Is (path constraints relevant to c) /\ c satisfiable?
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], c: E) -> Res {
        // independent-constraint slice
        let mut slice: Vec<E> = vec![];
        {
            let mut vars: std::collections::HashSet<u32, std::hash::BuildHasherDefault<Fx>> = Default::default();
            for &v in ar.var_set(c).iter() { vars.insert(v); }
            let sets: Vec<_> = pc.iter().map(|&e| ar.var_set(e)).collect();
            let mut used = vec![false; pc.len()];
            loop {
                let mut ch = false;
                for i in 0..pc.len() {
                    if !used[i] && sets[i].iter().any(|v| vars.contains(v)) {
                        used[i] = true;
                        ch = true;
                        for &v in sets[i].iter() { vars.insert(v); }
                        slice.push(pc[i]);
                    }
                }
                if !ch { break; }
            }
            slice.sort_unstable();
            slice.dedup();
        }
        // constraints over the variables of c alone often decide already, and repeat across paths
        let own: std::collections::HashSet<u32, std::hash::BuildHasherDefault<Fx>> = ar.var_set(c).iter().copied().collect();
        let sub: Vec<E> = slice.iter().copied().filter(|&e| ar.var_set(e).iter().all(|v| own.contains(v))).collect();
        if sub.len() < slice.len() && !self.cache.contains_key(&(slice.clone(), c)) {
            if let Res::Unsat = self.solve(ar, (sub, c)) { return Res::Unsat; }
        }
        self.solve(ar, (slice, c))
    }
    fn solve(&mut self, ar: &mut Arena, key: (Vec<E>, E)) -> Res {
        let c = key.1;
        if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        if self.trace { eprintln!("Q {} sub {} c={} vars={:?}", c, key.0.len(), ar.show(c, 5), ar.var_set(c)); }
        let r = unsafe {
            let api = self.api.clone();
            (api.Z3_solver_reset)(self.ctx, self.solver);
            for &e in key.0.iter().chain(std::iter::once(&c)) {
                let b = self.boolean(ar, e);
                (api.Z3_solver_assert)(self.ctx, self.solver, b);
            }
            let mut vars: Vec<u32> = vec![];
            for &e in key.0.iter().chain(std::iter::once(&c)) { vars.extend(ar.var_set(e).iter()); }
            vars.sort_unstable();
            vars.dedup();
            for &v in &vars {
                let n = ar.nodes[v as usize];
                let (w, lo, hi) = (n.w as u32, n.v >> 64, n.v & u64::MAX as u128);
                let x = self.bv(ar, v);
                if lo > 0 { let k = self.num(lo, w); (api.Z3_solver_assert)(self.ctx, self.solver, (api.Z3_mk_bvule)(self.ctx, k, x)); }
                if hi < mask(w) { let k = self.num(hi, w); (api.Z3_solver_assert)(self.ctx, self.solver, (api.Z3_mk_bvule)(self.ctx, x, k)); }
            }
            let q = (api.Z3_solver_check)(self.ctx, self.solver);
            match q {
                1 => {
                    let m = (api.Z3_solver_get_model)(self.ctx, self.solver);
                    (api.Z3_model_inc_ref)(self.ctx, m);
                    let mut out = vec![];
                    for v in vars {
                        let x = self.bv(ar, v);
                        let mut r: P = std::ptr::null_mut();
                        if !(api.Z3_model_eval)(self.ctx, m, x, true, &mut r) { panic!("model eval"); }
                        let s = CStr::from_ptr((api.Z3_get_numeral_string)(self.ctx, r)).to_str().unwrap();
                        out.push((ar.nodes[v as usize].a, s.parse::<u128>().unwrap()));
                    }
                    (api.Z3_model_dec_ref)(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time { self.stats.max_time = dt; }
        match r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        if let Some(p) = &self.dump {
            if dt > 1.0 || matches!(r, Res::Unknown) {
                let s = unsafe { CStr::from_ptr((self.api.Z3_solver_to_string)(self.ctx, self.solver)).to_string_lossy().to_string() };
                let _ = std::fs::write(format!("{}/slow_{}_{:?}.smt2", p, self.stats.queries, std::thread::current().id()), s + "\n(check-sat)\n");
            }
        }
        if !matches!(r, Res::Unknown) { self.cache.insert(key, r.clone()); }
        r
    }
    pub fn dispose(&mut self) { unsafe { (self.api.Z3_solver_dec_ref)(self.ctx, self.solver); (self.api.Z3_del_context)(self.ctx); } }
    pub fn version(api: &Api) -> String { unsafe { CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().to_string() } }
}
