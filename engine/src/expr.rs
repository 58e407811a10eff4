//! Hash-consed bit-vector expression arena with local simplification.
//! Widths are 1..=128 bits.  Booleans are 1-bit vectors.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn finish(&self) -> u64 { self.0 }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub v: u128,
}

#[derive(Clone, Copy)]
pub struct Range { pub lo: u128, pub hi: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub rng: Vec<Range>,
    /// structural hash (id independent, so that decisions replay identically in every thread)
    pub sh: Vec<u64>,
    map: FxMap<Node, E>,
    pub vars: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    // eval memo
    ev: Vec<u128>,
    evstamp: Vec<u32>,
    stamp: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s }
}

pub fn clamp(v: u128, w: u32, lo: u64, hi: u64) -> u128 { let v = v & mask(w); if v < lo as u128 || v > hi as u128 { lo as u128 } else { v } }
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for division by zero (the code guards it anyway)
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Arena {
    pub fn new() -> Self {
        let mut s = Arena {
            nodes: vec![], rng: vec![], sh: vec![], map: Default::default(), vars: vec![],
            ev: vec![], evstamp: vec![], stamp: 0,
        };
        // id 0 is reserved
        s.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, v: 0xdead });
        s
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.nodes.len() as E;
        let r = self.range_of(&n);
        let mut h = Fx::default();
        h.write_u64(((n.op as u64) << 32) | n.w as u64);
        h.write_u128(n.v);
        match n.op {
            Op::Const => {}
            Op::Var => h.write_u64(n.a as u64),
            _ => for x in [n.a, n.b, n.c] { h.write_u64(if x == 0 { 0 } else { self.sh[x as usize] }); }
        }
        let hh = h.finish();
        self.sh.push(hh ^ (hh >> 29));
        self.nodes.push(n);
        self.rng.push(r);
        self.vars.push(None);
        self.ev.push(0);
        self.evstamp.push(0);
        id
    }
    fn range_of(&self, n: &Node) -> Range {
        let m = mask(n.w as u32);
        let full = Range { lo: 0, hi: m };
        let ra = |x: E| self.rng[x as usize];
        match n.op {
            Op::Const => Range { lo: n.v, hi: n.v },
            Op::Var => Range { lo: n.v >> 64, hi: n.v & u64::MAX as u128 },
            Op::ZExt => ra(n.a),
            Op::Ite => { let (x, y) = (ra(n.b), ra(n.c)); Range { lo: x.lo.min(y.lo), hi: x.hi.max(y.hi) } }
            Op::And => { let (x, y) = (ra(n.a), ra(n.b)); Range { lo: 0, hi: x.hi.min(y.hi) } }
            Op::Or | Op::Xor => {
                let (x, y) = (ra(n.a), ra(n.b));
                let h = x.hi | y.hi;
                let bits = 128 - h.leading_zeros();
                Range { lo: if n.op == Op::Or { x.lo.max(y.lo) } else { 0 }, hi: mask(bits.max(1)).min(m) }
            }
            Op::Add => {
                let (x, y) = (ra(n.a), ra(n.b));
                match x.hi.checked_add(y.hi) { Some(h) if h <= m => Range { lo: x.lo + y.lo, hi: h }, _ => full }
            }
            Op::Mul => {
                let (x, y) = (ra(n.a), ra(n.b));
                match x.hi.checked_mul(y.hi) { Some(h) if h <= m => Range { lo: x.lo * y.lo, hi: h }, _ => full }
            }
            Op::Sub => {
                let (x, y) = (ra(n.a), ra(n.b));
                if x.lo >= y.hi { Range { lo: x.lo - y.hi, hi: x.hi - y.lo } } else { full }
            }
            Op::LShr => {
                let nb = &self.nodes[n.b as usize];
                if nb.op == Op::Const && nb.v < n.w as u128 { let x = ra(n.a); Range { lo: x.lo >> nb.v, hi: x.hi >> nb.v } } else { Range { lo: 0, hi: ra(n.a).hi } }
            }
            Op::Shl => {
                let nb = &self.nodes[n.b as usize];
                if nb.op == Op::Const && nb.v < n.w as u128 {
                    let x = ra(n.a);
                    if x.hi.leading_zeros() as u128 > nb.v && (x.hi << nb.v) <= m { return Range { lo: x.lo << nb.v, hi: x.hi << nb.v }; }
                }
                full
            }
            Op::UDiv => {
                let y = ra(n.b); let x = ra(n.a);
                if y.lo > 0 { Range { lo: x.lo / y.hi, hi: x.hi / y.lo } } else { full }
            }
            Op::URem => {
                let y = ra(n.b); let x = ra(n.a);
                if y.lo > 0 { Range { lo: 0, hi: x.hi.min(y.hi - 1) } } else { full }
            }
            Op::Concat => {
                let wb = self.nodes[n.b as usize].w;
                let (x, y) = (ra(n.a), ra(n.b));
                Range { lo: (x.lo << wb) | y.lo, hi: (x.hi << wb) | y.hi }
            }
            Op::Extract => {
                let x = ra(n.a);
                if n.v == 0 && x.hi <= m { x } else { full }
            }
            _ => full,
        }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.push(n);
        self.map.insert(n, id);
        id
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn konst(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.v) } else { None }
    }
    pub fn c(&mut self, w: u32, v: u128) -> E {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    /// variable with the values lo..=hi; the solver layer asserts the bounds
    pub fn var(&mut self, ord: u32, w: u32, lo: u64, hi: u64) -> E {
        if lo == hi { return self.c(w, lo as u128); }
        self.intern(Node { op: Op::Var, w: w as u16, a: ord, b: 0, c: 0, v: ((lo as u128) << 64) | hi as u128 })
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.intern(Node { op, w: w as u16, a, b, c: 0, v: 0 })
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.c(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = fold(op, w, x, y);
            return self.c(rw, v);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (mut ka, mut kb) = (ka, kb);
        if commut && (ka.is_some() || (kb.is_none() && (self.sh[a as usize], a) > (self.sh[b as usize], b))) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(w);
        let na = self.nodes[a as usize];
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Op::Add { if let Some(k2) = self.konst(na.b) { let k3 = self.c(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, k3); } }
                }
                for (x, y) in [(a, b), (b, a)] {
                    let (nx, ny) = (self.nodes[x as usize], self.nodes[y as usize]);
                    // (y / k) * k + y % k = y
                    if nx.op == Op::URem && ny.op == Op::Mul && ny.b == nx.b && self.konst(nx.b).is_some() {
                        let q = self.bin(Op::UDiv, nx.a, nx.b);
                        if q == ny.a { return nx.a; }
                    }
                    // x - (x / k) * k = x % k
                    if ny.op == Op::Mul {
                        let d = self.nodes[ny.a as usize];
                        if d.op == Op::UDiv && d.a == x { if let (Some(k), Some(nk)) = (self.konst(d.b), self.konst(ny.b)) { if k.wrapping_add(nk) & m == 0 { return self.bin(Op::URem, x, d.b); } } }
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.c(w, 0); }
                if let Some(k) = kb { let nk = self.c(w, 0u128.wrapping_sub(k)); return self.bin(Op::Add, a, nk); }
                // (x + y) - x = y
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                let nb = self.nodes[b as usize];
                if nb.op == Op::Mul {
                    let d = self.nodes[nb.a as usize];
                    if d.op == Op::UDiv && d.a == a && d.b == nb.b && self.konst(d.b).is_some() { return self.bin(Op::URem, a, d.b); }
                }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv => {
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); } }
                if rb.lo > ra.hi { return self.c(w, 0); }
                if let Some(k) = kb { if k > 0 {
                    if let Some(k2) = self.konst(na.b) { if na.b != 0 && k2 > 0 {
                        if na.op == Op::UDiv { if let Some(p) = k.checked_mul(k2) { if p <= m { let p = self.c(w, p); return self.bin(Op::UDiv, na.a, p); } } }
                        // (x % (k*q)) / k = (x / k) % q
                        if na.op == Op::URem && k2 % k == 0 { let x = self.bin(Op::UDiv, na.a, b); let q = self.c(w, k2 / k); return self.bin(Op::URem, x, q); }
                    } }
                } }
            }
            Op::URem => {
                if let Some(k) = kb { if k > 0 && na.op == Op::URem { if let Some(k2) = self.konst(na.b) { if k2 % k == 0 { return self.bin(Op::URem, na.a, b); } } } }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.c(w, k - 1); return self.bin(Op::And, a, s); } }
                if rb.lo > ra.hi { return a; }
            }
            Op::And => {
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if a == b { return a; }
                if let Some(k) = kb {
                    // mask covering all possible bits
                    if (k & (k + 1)) == 0 && ra.hi <= k { return a; }
                    if na.op == Op::And { if let Some(k2) = self.konst(na.b) { let k3 = self.c(w, k & k2); return self.bin(Op::And, na.a, k3); } }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.c(iw, k);
                        let i = self.bin(Op::And, na.a, kk);
                        return self.zext(i, w);
                    }
                    if (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Or => {
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if a == b { return a; }
                if let Some(k) = kb { let used = mask((128 - ra.hi.leading_zeros()).max(1)); if used & k == 0 { return self.bin(Op::Add, a, b); } }
                // disjoint shifted zext pieces -> concat : (x << k) | zext(y) with width(y) <= k
                if let Some(r) = self.or_to_concat(a, b, w) { return r; }
            }
            Op::Xor => {
                if kb == Some(0) { return a; }
                if a == b { return self.c(w, 0); }
                if let Some(k) = kb {
                    if na.op == Op::Xor { if let Some(k2) = self.konst(na.b) { let k3 = self.c(w, k ^ k2); return self.bin(Op::Xor, na.a, k3); } }
                    if w == 1 {
                        // not(cmp)
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) { return a; }
                if ka == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= w as u128 { if op == Op::AShr { let t = self.c(w, (w - 1) as u128); return self.bin(Op::AShr, a, t); } return self.c(w, 0); }
                    let k = k as u32;
                    if op == Op::LShr {
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        let x = self.extract(a, 0, w - k);
                        let z = self.c(k, 0);
                        return self.concat(x, z);
                    }
                    if op == Op::AShr && ra.hi <= (m >> 1) { return self.bin(Op::LShr, a, b); }
                }
            }
            Op::Eq => {
                if a == b { return self.c(1, 1); }
                if ra.hi < rb.lo || rb.hi < ra.lo { return self.c(1, 0); }
                if let Some(k) = kb {
                    if w == 1 { return if k == 1 { a } else { self.not1(a) }; }
                    match na.op {
                        Op::UDiv if k == 0 && self.konst(na.b).map_or(false, |d| d > 0) => return self.bin(Op::Ult, na.a, na.b),
                        Op::ZExt => { let iw = self.w(na.a); if k > mask(iw) { return self.c(1, 0); } let kk = self.c(iw, k); return self.bin(Op::Eq, na.a, kk); }
                        Op::SExt => { let iw = self.w(na.a); let kk = k & mask(iw); if (sx(kk, iw) as u128 & m) != k { return self.c(1, 0); } let kk = self.c(iw, kk); return self.bin(Op::Eq, na.a, kk); }
                        Op::Add => { if let Some(k2) = self.konst(na.b) { let kk = self.c(w, k.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, kk); } }
                        Op::Xor => { if let Some(k2) = self.konst(na.b) { let kk = self.c(w, k ^ k2); return self.bin(Op::Eq, na.a, kk); } }
                        Op::Concat => {
                            let wb = self.w(na.b); let wa = self.w(na.a);
                            let (hi, lo) = (self.c(wa, k >> wb), self.c(wb, k));
                            let x = self.bin(Op::Eq, na.a, hi);
                            if self.konst(x) == Some(0) { return x; }
                            let y = self.bin(Op::Eq, na.b, lo);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (kt, kf) = (self.konst(na.b), self.konst(na.c));
                            if kt.is_some() || kf.is_some() {
                                let t = self.bin(Op::Eq, na.b, b);
                                let f = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, t, f);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.nodes[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.c(1, 0); }
                if ra.hi < rb.lo { return self.c(1, 1); }
                if ra.lo >= rb.hi { return self.c(1, 0); }
                if kb == Some(1) { let z = self.c(w, 0); return self.bin(Op::Eq, a, z); }
                let nb = self.nodes[b as usize];
                // x / k < c  <=>  x < c * k;  c < x / k  <=>  (c + 1) * k <= x
                if let (Some(c), Op::UDiv) = (kb, na.op) { if let Some(k) = self.konst(na.b) { if let Some(p) = c.checked_mul(k) { if k > 0 && p <= m { let p = self.c(w, p); return self.bin(Op::Ult, na.a, p); } } } }
                if let (Some(c), Op::UDiv) = (ka, nb.op) { if let Some(k) = self.konst(nb.b) { if let Some(p) = c.checked_add(1).and_then(|c| c.checked_mul(k)) { if k > 0 && p <= m { let p = self.c(w, p); return self.bin(Op::Ule, p, nb.a); } } } }
                if let Some(k) = kb { if na.op == Op::ZExt { let iw = self.w(na.a); let kk = self.c(iw, k); return self.bin(Op::Ult, na.a, kk); } }
                if let Some(k) = ka { if nb.op == Op::ZExt { let iw = self.w(nb.a); let kk = self.c(iw, k); return self.bin(Op::Ult, kk, nb.a); } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
            }
            Op::Ule => {
                if a == b { return self.c(1, 1); }
                if ra.hi <= rb.lo { return self.c(1, 1); }
                if ra.lo > rb.hi { return self.c(1, 0); }
                let nb = self.nodes[b as usize];
                if let (Some(c), Op::UDiv) = (ka, nb.op) { if let Some(k) = self.konst(nb.b) { if let Some(p) = c.checked_mul(k) { if k > 0 && p <= m { let p = self.c(w, p); return self.bin(Op::Ule, p, nb.a); } } } }
                if let (Some(c), Op::UDiv) = (kb, na.op) { if let Some(k) = self.konst(na.b) { if let Some(p) = c.checked_add(1).and_then(|c| c.checked_mul(k)) { if k > 0 && p <= m { let p = self.c(w, p); return self.bin(Op::Ult, na.a, p); } } } }
                if let Some(k) = kb { if na.op == Op::ZExt { let iw = self.w(na.a); let kk = self.c(iw, k); return self.bin(Op::Ule, na.a, kk); } }
                if let Some(k) = ka { if nb.op == Op::ZExt { let iw = self.w(nb.a); let kk = self.c(iw, k); return self.bin(Op::Ule, kk, nb.a); } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ule, na.a, nb.a); }
                if ka == Some(1) { let z = self.c(w, 0); let q = self.bin(Op::Eq, b, z); return self.not1(q); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c(1, (op == Op::Sle) as u128); }
                let half = m >> 1;
                if ra.hi <= half && rb.hi <= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if ra.hi <= half && rb.lo > half { return self.c(1, 0); }
                if ra.lo > half && rb.hi <= half { return self.c(1, 1); }
                // sign tests
                if op == Op::Slt && kb == Some(0) { return self.extract(a, w - 1, 1); }
                if op == Op::Slt && ka == Some(m) { let s = self.extract(b, w - 1, 1); return self.not1(s); }
                if op == Op::Sle && ka == Some(0) { let s = self.extract(b, w - 1, 1); return self.not1(s); }
            }
            _ => {}
        }
        // push constant operand through ite with constant arms
        if let Some(_) = kb {
            if na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() {
                let t = self.bin(op, na.b, b);
                let f = self.bin(op, na.c, b);
                return self.ite(na.a, t, f);
            }
        } else if ka.is_some() {
            let nb = self.nodes[b as usize];
            if nb.op == Op::Ite && self.konst(nb.b).is_some() && self.konst(nb.c).is_some() {
                let t = self.bin(op, a, nb.b);
                let f = self.bin(op, a, nb.c);
                return self.ite(nb.a, t, f);
            }
        }
        self.mk(op, rw, a, b)
    }
    /// Recognise byte assembly: or of pieces whose possible bits are disjoint.
    fn or_to_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // hi must be Concat(x, 0_k); lo must fit below k
        for (h, l) in [(a, b), (b, a)] {
            let nh = self.nodes[h as usize];
            if nh.op == Op::Concat && self.konst(nh.b) == Some(0) {
                let k = self.w(nh.b);
                if self.rng[l as usize].hi <= mask(k) {
                    let lo = self.extract(l, 0, k);
                    return Some(self.concat(nh.a, lo));
                }
            }
            // hi = zext(Concat(x,0_k))
            if nh.op == Op::ZExt {
                let ni = self.nodes[nh.a as usize];
                if ni.op == Op::Concat && self.konst(ni.b) == Some(0) {
                    let k = self.w(ni.b);
                    if self.rng[l as usize].hi <= mask(k) {
                        let lo = self.extract(l, 0, k);
                        let c = self.concat(ni.a, lo);
                        return Some(self.zext(c, w));
                    }
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.konst(c) { return if k != 0 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        let nc = self.nodes[c as usize];
        // ite(not c) -> swap
        if nc.op == Op::Xor && self.konst(nc.b) == Some(1) { return self.ite(nc.a, f, t); }
        if w == 1 {
            match (self.konst(t), self.konst(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, f); }
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: t, c: f, v: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(aw < w);
        if let Some(k) = self.konst(a) { return self.c(w, k); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Extract && n.v == 0 && self.rng[n.a as usize].hi <= mask(aw) {
            let wx = self.w(n.a);
            return if wx == w { n.a } else if wx < w { self.zext(n.a, w) } else { self.extract(n.a, 0, w) };
        }
        // sums and products with a constant that do not overflow
        if n.op == Op::Add || n.op == Op::Mul {
            if let Some(k) = self.konst(n.b) {
                let h = self.rng[n.a as usize].hi;
                let r = if n.op == Op::Add { h.checked_add(k) } else { h.checked_mul(k) };
                if r.map_or(false, |r| r <= mask(aw)) { let x = self.zext(n.a, w); let y = self.c(w, k); return self.bin(n.op, x, y); }
            }
        }
        if n.op == Op::Ite && self.konst(n.b).is_some() && self.konst(n.c).is_some() {
            let t = self.zext(n.b, w); let f = self.zext(n.c, w);
            return self.ite(n.a, t, f);
        }
        self.mk(Op::ZExt, w, a, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.konst(a) { return self.c(w, sx(k, aw) as u128); }
        if self.rng[a as usize].hi <= mask(aw) >> 1 { return self.zext(a, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.mk(Op::SExt, w, a, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        if let Some(k) = self.konst(a) { return self.c(w, k >> lo); }
        if lo < 128 && self.rng[a as usize].hi >> lo == 0 { return self.c(w, 0); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.v as u32, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb { return self.extract(n.a, lo - wb, w); }
                if lo + w <= wb { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo >= iw { return self.c(w, 0); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.konst(n.b).is_some() || self.konst(n.c).is_some() {
                    let t = self.extract(n.b, lo, w);
                    let f = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, f);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: 0, c: 0, v: lo as u128 })
    }
    /// a is the high part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        assert!(wa + wb <= 128, "concat too wide");
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.c(wa + wb, (x << wb) | y); }
        if ka == Some(0) { return self.zext(b, wa + wb); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.v == nb.v + wb as u128 {
            return self.extract(na.a, nb.v as u32, wa + wb);
        }
        // extract(x, k..) ++ x where x = trunc handled above; zext(x)++.. :
        if na.op == Op::ZExt { let x = self.concat(na.a, b); return self.zext(x, wa + wb); }
        // concat(x, concat(y, z)) -> concat(concat(x,y),z) normal form (left-assoc) lets merges happen
        if nb.op == Op::Concat {
            let l = self.concat(a, nb.a);
            return self.concat(l, nb.b);
        }
        if na.op == Op::Concat {
            let nab = self.nodes[na.b as usize];
            if nab.op == Op::Extract && nb.op == Op::Extract && nab.a == nb.a && nab.v == nb.v + wb as u128 {
                let l = self.concat(na.b, b);
                return self.concat(na.a, l);
            }
            if let (Some(x), Some(y)) = (self.konst(na.b), kb) {
                let wab = self.w(na.b);
                let k = self.c(wab + wb, (x << wb) | y);
                return self.intern(Node { op: Op::Concat, w: (wa + wb) as u16, a: na.a, b: k, c: 0, v: 0 });
            }
        }
        self.intern(Node { op: Op::Concat, w: (wa + wb) as u16, a, b, c: 0, v: 0 })
    }

    pub fn var_set(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] { return v.clone(); }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const => std::rc::Rc::new(vec![]),
            Op::Var => std::rc::Rc::new(vec![e]),
            Op::ZExt | Op::SExt | Op::Extract => self.var_set(n.a),
            Op::Ite => {
                let x = self.var_set(n.a); let y = self.var_set(n.b); let z = self.var_set(n.c);
                merge(&merge(&x, &y), &z)
            }
            _ => { let x = self.var_set(n.a); let y = self.var_set(n.b); merge(&x, &y) }
        };
        self.vars[e as usize] = Some(r.clone());
        r
    }
    pub fn new_eval(&mut self) { self.stamp += 1; }
    /// Evaluate under a model given by variable ordinal. Call new_eval() whenever the model changed.
    pub fn eval(&mut self, e: E, m: &[u128]) -> u128 {
        let i = e as usize;
        if self.evstamp[i] == self.stamp { return self.ev[i]; }
        let n = self.nodes[i];
        let r = match n.op {
            Op::Const => n.v,
            Op::Var => clamp(m.get(n.a as usize).copied().unwrap_or(0), n.w as u32, (n.v >> 64) as u64, n.v as u64),
            Op::Ite => if self.eval(n.a, m) != 0 { self.eval(n.b, m) } else { self.eval(n.c, m) },
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => { let w = self.w(n.a); (sx(self.eval(n.a, m), w) as u128) & mask(n.w as u32) }
            Op::Extract => (self.eval(n.a, m) >> n.v) & mask(n.w as u32),
            Op::Concat => { let wb = self.w(n.b); (self.eval(n.a, m) << wb) | self.eval(n.b, m) }
            _ => { let w = self.w(n.a); let (x, y) = (self.eval(n.a, m), self.eval(n.b, m)); fold(n.op, w, x, y) & mask(n.w as u32) }
        };
        self.ev[i] = r;
        self.evstamp[i] = self.stamp;
        r
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}", n.v),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if d == 0 => "..".into(),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.v, n.w),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

fn merge(a: &std::rc::Rc<Vec<u32>>, b: &std::rc::Rc<Vec<u32>>) -> std::rc::Rc<Vec<u32>> {
    if a.is_empty() || std::rc::Rc::ptr_eq(a, b) { return b.clone(); }
    if b.is_empty() { return a.clone(); }
    let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
    v.sort_unstable();
    v.dedup();
    if v.len() == a.len() { return a.clone(); }
    if v.len() == b.len() { return b.clone(); }
    std::rc::Rc::new(v)
}
