//! Parser for textual LLVM IR (as emitted by rustc --emit=llvm-ir after fat LTO).
use std::collections::HashMap;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, TyId), Struct(Vec<TyId>, bool), Vector(u32, TyId), Other }

#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    Float(u32, u64),
    Null,
    Undef(TyId),
    Zero(TyId),
    Global(String),
    Agg(TyId, Vec<Const>),
    Str(Vec<u8>),
    Gep(Box<Const>, i64),
    PtrToInt(Box<Const>, u32),
    IntToPtr(Box<Const>),
    Bin(char, Box<Const>, Box<Const>, u32),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd { Reg(u32), Imm(u64), K(u32) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(Opnd), Asm(String) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, TyId, Opnd, Opnd),
    ICmp(Pred, TyId, Opnd, Opnd),
    FCmp(String, TyId, Opnd, Opnd),
    FNeg(TyId, Opnd),
    Cast(CastOp, TyId, TyId, Opnd),
    Select(TyId, TyId, Opnd, Opnd, Opnd),
    Load(TyId, Opnd),
    Store(TyId, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u32, i64)>),
    Alloca(u64, Option<(Opnd, u32)>),
    Call { callee: Callee, args: Vec<(TyId, Opnd)>, ret: TyId, normal: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(TyId, Opnd, Opnd, Vec<u32>),
    ExtractElement(Opnd, Opnd),
    InsertElement(TyId, Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<i32>),
    AtomicRmw(String, TyId, Opnd, Opnd),
    CmpXchg(TyId, Opnd, Opnd, Opnd),
    Freeze(Opnd),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst { pub i: I, pub dst: u32, pub dbg: u32 }
pub const NODST: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block {
    /// phis: (dst, [(pred, opnd)])
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nparams: usize,
    pub varargs: bool,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub dbg: u32,
}
pub struct Global { pub name: String, pub ty: TyId, pub init: Option<Const>, pub constant: bool }

pub struct Module {
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub aliases: HashMap<String, Const>,
    pub consts: Vec<(TyId, Const)>,
    /// metadata id -> text
    pub meta: HashMap<u32, (usize, usize)>,
    pub text: String,
    pub bodies: Vec<Option<(usize, usize, Vec<(String, TyId)>)>>,
    pub opaque_error: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    L(std::borrow::Cow<'a, str>),
    G(std::borrow::Cow<'a, str>),
    M(&'a str),
    W(&'a str),
    N(&'a str),
    S(Vec<u8>),
    CS(Vec<u8>),
    P(u8),
    Attr,
    Ellipsis,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b.get(i + 1) == Some(&b'\\') { o.push(b'\\'); i += 2; }
        else if b[i] == b'\\' {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(16);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let (name, j): (std::borrow::Cow<str>, usize) = if b.get(i + 1) == Some(&b'"') {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    let raw = unescape(&b[i + 2..j]);
                    (String::from_utf8_lossy(&raw).into_owned().into(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idch(b[j]) { j += 1; }
                    (s[i + 1..j].into(), j)
                };
                v.push(if c == b'%' { T::L(name) } else { T::G(name) });
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idch(b[j]) { j += 1; }
                v.push(T::M(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() { j += 1; }
                v.push(T::Attr);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' { j += 1; }
                v.push(T::S(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                while b[j] != b'"' { j += 1; }
                v.push(T::CS(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'.' if b.get(i + 1) == Some(&b'.') => { v.push(T::Ellipsis); i += 3; }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e'))) { j += 1; }
                v.push(T::N(&s[i..j]));
                i = j;
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => {
                let mut j = i + 1;
                while j < b.len() && idch(b[j]) { j += 1; }
                v.push(T::W(&s[i..j]));
                i = j;
            }
            _ => { v.push(T::P(c)); i += 1; }
        }
    }
    v
}

struct Ps<'a, 'm> { t: Vec<T<'a>>, p: usize, m: &'m mut Module }
type R<X> = Result<X, String>;

fn is_value_word(w: &str) -> bool {
    matches!(w, "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "none" | "splat" | "getelementptr"
        | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" | "asm" | "blockaddress" | "addrspacecast" | "and" | "shl" | "lshr" | "ptrtoaddr")
}

impl<'a, 'm> Ps<'a, 'm> {
    fn peek(&self) -> Option<&T<'a>> { self.t.get(self.p) }
    fn next(&mut self) -> R<T<'a>> { let x = self.t.get(self.p).cloned().ok_or("eof")?; self.p += 1; Ok(x) }
    fn isp(&self, c: u8) -> bool { self.peek() == Some(&T::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(T::W(x)) if *x == w) }
    fn eatp(&mut self, c: u8) -> bool { if self.isp(c) { self.p += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.p += 1; true } else { false } }
    fn exp(&mut self, c: u8) -> R<()> { if self.eatp(c) { Ok(()) } else { Err(format!("expected {} got {:?} at {}", c as char, self.peek(), self.p)) } }
    fn skip_parens(&mut self) -> R<()> {
        self.exp(b'(')?;
        let mut d = 1;
        while d > 0 { match self.next()? { T::P(b'(') => d += 1, T::P(b')') => d -= 1, _ => {} } }
        Ok(())
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "opaque" | "target")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P(b'[')) | Some(T::P(b'{')) | Some(T::P(b'<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<TyId> {
        let t = match self.next()? {
            T::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => { if self.eatw("addrspace") { self.skip_parens()?; } Ty::Ptr }
                "float" => Ty::F32,
                "double" => Ty::F64,
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" | "opaque" => Ty::Other,
                "target" => { self.skip_parens()?; Ty::Other }
                _ => return Err(format!("type? {}", w)),
            },
            T::P(b'[') => {
                let n = self.int()? as u64;
                if !self.eatw("x") { return Err("x".into()); }
                let e = self.ty()?;
                self.exp(b']')?;
                Ty::Arr(n, e)
            }
            T::P(b'{') => { let f = self.fields(b'}')?; Ty::Struct(f, false) }
            T::P(b'<') => {
                if self.eatp(b'{') { let f = self.fields(b'}')?; self.exp(b'>')?; Ty::Struct(f, true) }
                else {
                    let n = self.int()? as u32;
                    if !self.eatw("x") { return Err("x".into()); }
                    let e = self.ty()?;
                    self.exp(b'>')?;
                    Ty::Vector(n, e)
                }
            }
            T::L(n) => { return self.m.named.get(n.as_ref()).copied().ok_or(format!("named type {}", n)); }
            x => return Err(format!("type? {:?}", x)),
        };
        let mut id = self.m.ty_id(t);
        // function type: T (args...)
        if self.isp(b'(') && self.fn_type_follows() { self.skip_parens()?; id = id; }
        Ok(id)
    }
    // only in call position: "void (ptr, ...) @f(" ; distinguish from "ptr (" which never occurs elsewhere
    fn fn_type_follows(&self) -> bool {
        matches!(self.t.get(self.p + 1), Some(T::W(_)) | Some(T::Ellipsis) | Some(T::P(b')')) | Some(T::P(b'{')) | Some(T::P(b'[')))
    }
    fn fields(&mut self, end: u8) -> R<Vec<TyId>> {
        let mut v = vec![];
        if self.eatp(end) { return Ok(v); }
        loop {
            v.push(self.ty()?);
            if self.eatp(end) { return Ok(v); }
            self.exp(b',')?;
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            T::N(s) => parse_int(s),
            x => Err(format!("int? {:?}", x)),
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::W(w)) if !is_value_word(w) => {
                    let w = *w;
                    // types never appear after attributes except value types handled by the caller
                    self.p += 1;
                    if self.isp(b'(') { self.skip_parens()?; }
                    else if w == "align" && matches!(self.peek(), Some(T::N(_))) { self.p += 1; }
                }
                Some(T::S(_)) => { self.p += 1; if self.eatp(b'=') { self.p += 1; } }
                Some(T::Attr) => { self.p += 1; }
                _ => return Ok(()),
            }
        }
    }
    fn konst(&mut self, ty: TyId) -> R<Const> {
        let t = self.m.tys[ty as usize].clone();
        let bits = match t { Ty::Int(w) => w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, _ => 0 };
        match self.next()? {
            T::N(s) => match t {
                Ty::F64 => Ok(Const::Float(64, if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { s.parse::<f64>().map_err(|e| e.to_string())?.to_bits() })),
                Ty::F32 => {
                    let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else { s.parse::<f64>().map_err(|e| e.to_string())? };
                    Ok(Const::Float(32, (d as f32).to_bits() as u64))
                }
                _ => { let v = parse_int(s)?; Ok(Const::Int(bits, (v as u128) & crate::expr::mask(bits.max(1)))) }
            },
            T::P(b'+') => { let d = match self.next()? { T::W("inf") => f64::INFINITY, _ => f64::NAN }; Ok(if matches!(t, Ty::F32) { Const::Float(32, (d as f32).to_bits() as u64) } else { Const::Float(64, d.to_bits()) }) }
            T::W("true") => Ok(Const::Int(1, 1)),
            T::W("false") => Ok(Const::Int(1, 0)),
            T::W("null") => Ok(Const::Null),
            T::W("none") => Ok(Const::Undef(ty)),
            T::W("undef") | T::W("poison") => Ok(Const::Undef(ty)),
            T::W("zeroinitializer") => Ok(Const::Zero(ty)),
            T::W("splat") => {
                self.exp(b'(')?;
                let et = self.ty()?;
                let c = self.konst(et)?;
                self.exp(b')')?;
                let n = if let Ty::Vector(n, _) = t { n } else { return Err("splat".into()) };
                Ok(Const::Agg(ty, vec![c; n as usize]))
            }
            T::G(g) => Ok(Const::Global(g.into_owned())),
            T::CS(b) => Ok(Const::Str(b)),
            T::P(b'[') => self.agg(ty, b']'),
            T::P(b'{') => self.agg(ty, b'}'),
            T::P(b'<') => {
                if self.eatp(b'{') { let c = self.agg(ty, b'}')?; self.exp(b'>')?; Ok(c) } else { self.agg(ty, b'>') }
            }
            T::W("getelementptr") => {
                self.gep_flags()?;
                self.exp(b'(')?;
                let st = self.ty()?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let base = self.konst(pt)?;
                let mut off = 0i64;
                let mut cur = st;
                let mut first = true;
                while self.eatp(b',') {
                    let it = self.ty()?;
                    let k = match self.konst(it)? { Const::Int(w, v) => crate::expr::sx(v, w) as i64, Const::Zero(_) => 0, c => return Err(format!("gep const idx {:?}", c)) };
                    if first { off += k * self.m.size(cur) as i64; first = false; }
                    else { let (o, n) = self.m.step(cur, Some(k))?; off += o; cur = n; }
                }
                self.exp(b')')?;
                Ok(Const::Gep(Box::new(base), off))
            }
            T::W("ptrtoint") | T::W("ptrtoaddr") => { let (c, _) = self.castk()?; Ok(Const::PtrToInt(Box::new(c.0), c.1)) }
            T::W("inttoptr") => { let (c, _) = self.castk()?; Ok(Const::IntToPtr(Box::new(c.0))) }
            T::W("trunc") => { let (c, _) = self.castk()?; Ok(Const::Trunc(Box::new(c.0), c.1)) }
            T::W("bitcast") | T::W("addrspacecast") => { let (c, _) = self.castk()?; Ok(c.0) }
            T::W(op @ ("sub" | "add" | "xor" | "mul" | "and")) => {
                while self.eatw("nuw") || self.eatw("nsw") {}
                self.exp(b'(')?;
                let t1 = self.ty()?;
                let a = self.konst(t1)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.konst(t2)?;
                self.exp(b')')?;
                Ok(Const::Bin(match op { "sub" => '-', "add" => '+', "xor" => '^', "and" => '&', _ => '*' }, Box::new(a), Box::new(b), bits))
            }
            x => Err(format!("const? {:?}", x)),
        }
    }
    fn castk(&mut self) -> R<((Const, u32), ())> {
        while self.eatw("nuw") || self.eatw("nsw") {}
        self.exp(b'(')?;
        let t = self.ty()?;
        let c = self.konst(t)?;
        if !self.eatw("to") { return Err("to".into()); }
        let t2 = self.ty()?;
        self.exp(b')')?;
        let w = match self.m.tys[t2 as usize] { Ty::Int(w) => w, _ => 64 };
        Ok(((c, w), ()))
    }
    fn agg(&mut self, ty: TyId, end: u8) -> R<Const> {
        let mut v = vec![];
        if self.eatp(end) { return Ok(Const::Agg(ty, v)); }
        loop {
            let t = self.ty()?;
            v.push(self.konst(t)?);
            if self.eatp(end) { return Ok(Const::Agg(ty, v)); }
            self.exp(b',')?;
        }
    }
    fn gep_flags(&mut self) -> R<()> {
        loop {
            if self.eatw("inbounds") || self.eatw("nuw") || self.eatw("nusw") || self.eatw("nsw") { continue; }
            if self.eatw("inrange") { self.skip_parens()?; continue; }
            return Ok(());
        }
    }
}

fn parse_int(s: &str) -> R<i128> {
    if let Some(r) = s.strip_prefix('-') { r.parse::<u128>().map(|v| (v as i128).wrapping_neg()).map_err(|e| format!("{} {}", s, e)) }
    else { s.parse::<u128>().map(|v| v as i128).map_err(|e| format!("{} {}", s, e)) }
}

impl Module {
    pub fn ty_id(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|&x| self.align(x)).max().unwrap_or(1) },
            Ty::Vector(..) => self.size_raw(t).next_power_of_two().min(64),
            _ => 1,
        }
    }
    fn size_raw(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Vector(n, e) => (*n as u64 * self.bits(*e) as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vector(n, e) => n * self.bits(*e),
            _ => (self.size(t) * 8) as u32,
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vector(..) => { let s = self.size_raw(t); let a = self.align(t); (s + a - 1) / a * a }
            Ty::Struct(f, p) => {
                let mut o = 0;
                let mut al = 1;
                for &x in f { let a = if *p { 1 } else { self.align(x) }; al = al.max(a); o = (o + a - 1) / a * a + self.size(x); }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) => (i as u64 * self.size(*e), *e),
            Ty::Vector(_, e) => (i as u64 * ((self.bits(*e) as u64 + 7) / 8), *e),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, &x) in f.iter().enumerate() {
                    let a = if *p { 1 } else { self.align(x) };
                    o = (o + a - 1) / a * a;
                    if j == i { return (o, x); }
                    o += self.size(x);
                }
                panic!("field")
            }
            _ => panic!("field_off"),
        }
    }
    fn step(&self, t: TyId, k: Option<i64>) -> R<(i64, TyId)> {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) => Ok((k.unwrap_or(0) * self.size(*e) as i64, *e)),
            Ty::Struct(..) => { let (o, x) = self.field_off(t, k.ok_or("struct idx")? as usize); Ok((o as i64, x)) }
            Ty::Vector(_, e) => Ok((k.unwrap_or(0) * ((self.bits(*e) as i64 + 7) / 8), *e)),
            x => Err(format!("gep step {:?}", x)),
        }
    }
    fn func_id(&mut self, name: &str) -> u32 {
        if let Some(&i) = self.fmap.get(name) { return i; }
        let i = self.funcs.len() as u32;
        self.funcs.push(Func { name: name.to_string(), params: vec![], nparams: 0, varargs: false, nregs: 0, blocks: vec![], defined: false, dbg: 0 });
        self.bodies.push(None);
        self.fmap.insert(name.to_string(), i);
        i
    }

    pub fn parse(text: String) -> R<Module> {
        let mut m = Module {
            tys: vec![], tymap: HashMap::new(), named: HashMap::new(), globals: vec![], gmap: HashMap::new(), funcs: vec![],
            fmap: HashMap::new(), aliases: HashMap::new(), consts: vec![], meta: HashMap::new(), text: String::new(), bodies: vec![], opaque_error: None,
        };
        // pass 1: toplevel
        let src: &str = &text;
        let mut pos = 0;
        let n = src.len();
        let b = src.as_bytes();
        let eol = |p: usize| -> usize { match b[p..].iter().position(|&c| c == b'\n') { Some(k) => p + k, None => n } };
        let mut globals_src = vec![];
        let mut types_src = vec![];
        while pos < n {
            let e = eol(pos);
            let line = &src[pos..e];
            if line.starts_with('@') { globals_src.push(line); }
            else if line.starts_with('%') { types_src.push(line); }
            else if line.starts_with("declare ") || line.starts_with("define ") {
                let def = line.starts_with("define ");
                let hdr_start = pos;
                let mut end = e;
                if def {
                    let body_start = e + 1;
                    let mut p = body_start;
                    loop {
                        let e2 = eol(p);
                        if &src[p..e2] == "}" { end = e2; break; }
                        p = e2 + 1;
                        if p >= n { return Err("unterminated function".into()); }
                    }
                    m.header(&src[hdr_start..e], Some((body_start, end)))?;
                } else {
                    m.header(line, None)?;
                }
                pos = end + 1;
                continue;
            } else if line.starts_with('!') {
                if let Some(k) = line.find(" = ") { if let Ok(id) = line[1..k].parse::<u32>() { m.meta.insert(id, (pos + k + 3, e)); } }
            }
            pos = e + 1;
        }
        // named types (iterate until resolved)
        let mut rest = types_src;
        loop {
            let before = rest.len();
            let mut nr = vec![];
            for l in rest {
                let t = lex(l);
                let name = if let T::L(x) = &t[0] { x.to_string() } else { continue };
                let mut ps = Ps { t: t[3..].to_vec(), p: 0, m: &mut m };
                match ps.ty() { Ok(id) => { m.named.insert(name, id); } Err(_) => nr.push(l) }
            }
            rest = nr;
            if rest.is_empty() || rest.len() == before { break; }
        }
        for l in &globals_src { m.global(l).map_err(|e| format!("{} in {}", e, &l[..l.len().min(200)]))?; }
        // function bodies
        for f in 0..m.funcs.len() {
            if let Some((s, e, params)) = m.bodies[f].take() {
                m.body(f, &src[s..e], params).map_err(|x| format!("{} in function {}", x, m.funcs[f].name))?;
            }
        }
        m.text = text;
        Ok(m)
    }
    fn global(&mut self, l: &str) -> R<()> {
        let t = lex(l);
        let name = match &t[0] { T::G(n) => n.to_string(), _ => return Err("global name".into()) };
        let mut ps = Ps { t, p: 2, m: self };
        // skip linkage words until global|constant|alias
        loop {
            match ps.next()? {
                T::W("global") | T::W("constant") => {
                    let constant = matches!(ps.t[ps.p - 1], T::W("constant"));
                    let ty = ps.ty()?;
                    let init = match ps.peek() {
                        None | Some(T::P(b',')) => None,
                        _ => Some(ps.konst(ty)?),
                    };
                    let id = ps.m.globals.len() as u32;
                    ps.m.gmap.insert(name.clone(), id);
                    ps.m.globals.push(Global { name, ty, init, constant });
                    return Ok(());
                }
                T::W("alias") | T::W("ifunc") => {
                    let _ = ps.ty()?;
                    ps.exp(b',')?;
                    let t = ps.ty()?;
                    let c = ps.konst(t)?;
                    ps.m.aliases.insert(name, c);
                    return Ok(());
                }
                T::W(_) => { if ps.isp(b'(') { ps.skip_parens()?; } }
                _ => {}
            }
        }
    }
    fn header(&mut self, l: &str, body: Option<(usize, usize)>) -> R<()> {
        let t = lex(l);
        let gi = t.iter().position(|x| matches!(x, T::G(_))).ok_or("fn name")?;
        let name = if let T::G(n) = &t[gi] { n.to_string() } else { unreachable!() };
        let dbg = t.windows(2).find_map(|w| if let (T::M("dbg"), T::M(n)) = (&w[0], &w[1]) { n.parse().ok() } else { None }).unwrap_or(0);
        let mut ps = Ps { t, p: gi + 1, m: self };
        ps.exp(b'(')?;
        let mut params: Vec<(String, TyId)> = vec![];
        let mut varargs = false;
        let mut k = 0;
        if !ps.eatp(b')') {
            loop {
                if ps.peek() == Some(&T::Ellipsis) { ps.p += 1; varargs = true; }
                else {
                    let ty = ps.ty()?;
                    ps.skip_attrs()?;
                    let nm = if let Some(T::L(n)) = ps.peek() { let n = n.to_string(); ps.p += 1; n } else { k.to_string() };
                    if nm.bytes().all(|c| c.is_ascii_digit()) { k += 1; }
                    params.push((nm, ty));
                }
                if ps.eatp(b')') { break; }
                ps.exp(b',')?;
            }
        }
        let id = self.func_id(&name);
        let f = &mut self.funcs[id as usize];
        f.nparams = params.len();
        f.varargs = varargs;
        f.defined = body.is_some();
        f.dbg = dbg;
        if let Some((s, e)) = body { self.bodies[id as usize] = Some((s, e, params)); }
        Ok(())
    }
    fn body(&mut self, fidx: usize, src: &str, params: Vec<(String, TyId)>) -> R<()> {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut pr = vec![];
        let mut reg = |n: &str, regs: &mut HashMap<String, u32>| -> u32 { let k = regs.len() as u32; *regs.entry(n.to_string()).or_insert(k) };
        for (n, _) in &params { pr.push(reg(n, &mut regs)); }
        let mut blabels: HashMap<String, u32> = HashMap::new();
        // collect logical lines
        let mut lines: Vec<String> = vec![];
        let mut labels: Vec<(usize, String)> = vec![];
        let mut it = src.lines().peekable();
        let mut first = true;
        while let Some(l) = it.next() {
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') || l == "}" { continue; }
            if tl.starts_with('#') { continue; } // debug records
            if !l.starts_with(' ') {
                // label
                let name = if l.starts_with('"') { let e = l[1..].find('"').unwrap() + 1; String::from_utf8_lossy(&unescape(l[1..e].as_bytes())).into_owned() } else { l[..l.find(':').ok_or_else(|| format!("label `{}`", l))?].to_string() };
                labels.push((lines.len(), name));
                first = false;
                continue;
            }
            if first {
                // implicit entry label: its number is the count of unnamed params
                let k = params.iter().filter(|p| p.0.bytes().all(|c| c.is_ascii_digit())).count();
                labels.push((0, k.to_string()));
                first = false;
            }
            let mut s = tl.to_string();
            let body = tl.splitn(2, " = ").nth(1).filter(|_| tl.starts_with('%')).unwrap_or(tl);
            if body.starts_with("switch ") && !tl.contains(']') {
                while let Some(x) = it.next() { s.push(' '); s.push_str(x.split(" ;").next().unwrap().trim()); if x.trim_start().starts_with(']') { break; } }
            }
            if body.starts_with("invoke ") { if let Some(x) = it.next() { s.push(' '); s.push_str(x.trim()); } }
            if body.starts_with("landingpad") {
                while let Some(x) = it.peek() { let x = x.trim_start(); if x.starts_with("cleanup") || x.starts_with("catch ") || x.starts_with("filter ") { it.next(); } else { break; } }
                s = format!("{} = landingpad", tl.split(" = ").next().unwrap());
            }
            lines.push(s);
        }
        for (i, (_, n)) in labels.iter().enumerate() { blabels.insert(n.clone(), i as u32); }
        let mut blocks: Vec<Block> = (0..labels.len()).map(|_| Block::default()).collect();
        for bi in 0..labels.len() {
            let s = labels[bi].0;
            let e = labels.get(bi + 1).map(|x| x.0).unwrap_or(lines.len());
            for li in s..e {
                let line = &lines[li];
                self.inst(line, &mut regs, &blabels, &mut blocks[bi]).map_err(|x| format!("{} in `{}`", x, line))?;
            }
        }
        let f = &mut self.funcs[fidx];
        f.params = pr;
        f.nregs = regs.len() as u32;
        f.blocks = blocks;
        Ok(())
    }
    fn inst(&mut self, line: &str, regs: &mut HashMap<String, u32>, bl: &HashMap<String, u32>, blk: &mut Block) -> R<()> {
        let t = lex(line);
        // dbg attachment
        let mut dbg = 0;
        let mut k = t.len();
        while k >= 2 { if let (T::M("dbg"), T::M(n)) = (&t[k - 2], &t[k - 1]) { dbg = n.parse().unwrap_or(0); break; } k -= 1; }
        let mut ps = Ps { t, p: 0, m: self };
        let mut dst = NODST;
        if let Some(T::L(n)) = ps.peek().cloned() {
            let k = regs.len() as u32;
            dst = *regs.entry(n.to_string()).or_insert(k);
            ps.p = 2;
        }
        let op = match ps.next()? { T::W(w) => w.to_string(), x => return Err(format!("opcode {:?}", x)) };
        macro_rules! label { () => {{
            if !ps.eatw("label") { return Err("label".into()); }
            match ps.next()? { T::L(n) => *bl.get(n.as_ref()).ok_or(format!("label {}", n))?, x => return Err(format!("label {:?}", x)) }
        }} }
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let b = match op.as_str() {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem,
                };
                while !ps.is_type_start() { ps.p += 1; }
                let ty = ps.ty()?;
                let a = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let c = ps.opnd(ty, regs)?;
                I::Bin(b, ty, a, c)
            }
            "icmp" => {
                ps.eatw("samesign");
                let p = match ps.next()? { T::W(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
                let ty = ps.ty()?;
                let a = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let c = ps.opnd(ty, regs)?;
                I::ICmp(p, ty, a, c)
            }
            "fcmp" => {
                while matches!(ps.peek(), Some(T::W("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"))) { ps.p += 1; }
                let p = match ps.next()? { T::W(w) => w.to_string(), _ => return Err("pred".into()) };
                let ty = ps.ty()?;
                let a = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let c = ps.opnd(ty, regs)?;
                I::FCmp(p, ty, a, c)
            }
            "fneg" => { while !ps.is_type_start() { ps.p += 1; } let ty = ps.ty()?; let a = ps.opnd(ty, regs)?; I::FNeg(ty, a) }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                let c = match op.as_str() { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr,
                    "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fpext" => CastOp::FpExt, "fptrunc" => CastOp::FpTrunc, _ => CastOp::BitCast };
                while !ps.is_type_start() { ps.p += 1; }
                let t1 = ps.ty()?;
                let a = ps.opnd(t1, regs)?;
                if !ps.eatw("to") { return Err("to".into()); }
                let t2 = ps.ty()?;
                I::Cast(c, t1, t2, a)
            }
            "select" => {
                while !ps.is_type_start() { ps.p += 1; }
                let ct = ps.ty()?;
                let c = ps.opnd(ct, regs)?;
                ps.exp(b',')?;
                let ty = ps.ty()?;
                let a = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let t2 = ps.ty()?;
                let b = ps.opnd(t2, regs)?;
                I::Select(ct, ty, c, a, b)
            }
            "load" => {
                while matches!(ps.peek(), Some(T::W("volatile" | "atomic"))) { ps.p += 1; }
                let ty = ps.ty()?;
                ps.exp(b',')?;
                let pt = ps.ty()?;
                let p = ps.opnd(pt, regs)?;
                I::Load(ty, p)
            }
            "store" => {
                while matches!(ps.peek(), Some(T::W("volatile" | "atomic"))) { ps.p += 1; }
                let ty = ps.ty()?;
                let v = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let pt = ps.ty()?;
                let p = ps.opnd(pt, regs)?;
                I::Store(ty, v, p)
            }
            "getelementptr" => {
                ps.gep_flags()?;
                let st = ps.ty()?;
                ps.exp(b',')?;
                let pt = ps.ty()?;
                let base = ps.opnd(pt, regs)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = st;
                let mut first = true;
                while ps.isp(b',') {
                    if let Some(T::M(_)) = ps.t.get(ps.p + 1) { break; }
                    ps.p += 1;
                    let it = ps.ty()?;
                    let w = ps.m.bits(it);
                    let o = ps.opnd(it, regs)?;
                    let kv = match o { Opnd::Imm(v) => Some(crate::expr::sx(v as u128, w) as i64), _ => None };
                    if first {
                        let sz = ps.m.size(cur) as i64;
                        match kv { Some(k) => off += k * sz, None => terms.push((o, w, sz)) }
                        first = false;
                    } else {
                        match kv {
                            Some(k) => { let (d, n) = ps.m.step(cur, Some(k))?; off += d; cur = n; }
                            None => {
                                let (_, n) = ps.m.step(cur, None)?;
                                let sz = match &ps.m.tys[cur as usize] { Ty::Arr(_, e) => ps.m.size(*e), Ty::Vector(_, e) => (ps.m.bits(*e) as u64 + 7) / 8, _ => return Err("gep".into()) } as i64;
                                terms.push((o, w, sz));
                                cur = n;
                            }
                        }
                    }
                }
                I::Gep(base, off, terms)
            }
            "alloca" => {
                ps.eatw("inalloca");
                let ty = ps.ty()?;
                let sz = ps.m.size(ty);
                let mut cnt = None;
                if ps.isp(b',') && !matches!(ps.t.get(ps.p + 1), Some(T::W("align")) | Some(T::M(_)) | Some(T::W("addrspace"))) {
                    ps.p += 1;
                    let it = ps.ty()?;
                    let w = ps.m.bits(it);
                    cnt = Some((ps.opnd(it, regs)?, w));
                }
                I::Alloca(sz, cnt)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { ps.eatw("call"); }
                // flags, calling convention, ret attrs
                loop {
                    if ps.is_type_start() { break; }
                    match ps.peek() {
                        Some(T::L(_)) => break,
                        Some(T::W(_)) => { let w = if let Some(T::W(w)) = ps.peek() { w.to_string() } else { unreachable!() }; ps.p += 1; if ps.isp(b'(') { ps.skip_parens()?; } else if w == "align" { ps.p += 1; } }
                        Some(T::Attr) | Some(T::S(_)) => ps.p += 1,
                        x => return Err(format!("call prefix {:?}", x)),
                    }
                }
                let ret = ps.ty()?;
                if ps.isp(b'(') { ps.skip_parens()?; }
                let callee = match ps.next()? {
                    T::G(g) => {
                        let g = g.into_owned();
                        let g = match ps.m.aliases.get(&g) { Some(Const::Global(x)) => x.clone(), _ => g };
                        Callee::Fn(ps.m.func_id(&g))
                    }
                    T::L(n) => { let k = regs.len() as u32; Callee::Ptr(Opnd::Reg(*regs.entry(n.to_string()).or_insert(k))) }
                    T::W("asm") => {
                        while matches!(ps.peek(), Some(T::W(_))) { ps.p += 1; }
                        let s = if let T::S(s) = ps.next()? { String::from_utf8_lossy(&s).into_owned() } else { String::new() };
                        ps.exp(b',')?;
                        ps.next()?;
                        Callee::Asm(s)
                    }
                    T::W("inttoptr") => { ps.p -= 1; let pt = ps.m.ty_id(Ty::Ptr); let o = ps.opnd(pt, regs)?; Callee::Ptr(o) }
                    x => return Err(format!("callee {:?}", x)),
                };
                ps.exp(b'(')?;
                let mut args = vec![];
                if !ps.eatp(b')') {
                    loop {
                        let ty = ps.ty()?;
                        if matches!(ps.m.tys[ty as usize], Ty::Other) {
                            // metadata argument
                            let mut d = 0;
                            loop { match ps.peek() { Some(T::P(b'(')) | Some(T::P(b'{')) => d += 1, Some(T::P(b')')) | Some(T::P(b'}')) if d > 0 => d -= 1, Some(T::P(b')')) | Some(T::P(b',')) if d == 0 => break, None => return Err("eof".into()), _ => {} } ps.p += 1; }
                        } else {
                            ps.skip_attrs()?;
                            let o = ps.opnd(ty, regs)?;
                            args.push((ty, o));
                        }
                        if ps.eatp(b')') { break; }
                        ps.exp(b',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !ps.isw("to") { ps.p += 1; if ps.p > ps.t.len() { return Err("invoke".into()); } }
                    ps.p += 1;
                    normal = Some(label!());
                }
                I::Call { callee, args, ret, normal }
            }
            "br" => {
                if ps.isw("label") { let l = label!(); I::Br(l) }
                else {
                    let ty = ps.ty()?;
                    let c = ps.opnd(ty, regs)?;
                    ps.exp(b',')?;
                    let a = label!();
                    ps.exp(b',')?;
                    let b = label!();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let ty = ps.ty()?;
                let c = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let d = label!();
                ps.exp(b'[')?;
                let mut cs = vec![];
                while !ps.eatp(b']') {
                    let t2 = ps.ty()?;
                    let v = match ps.konst(t2)? { Const::Int(_, v) => v as u64, c => return Err(format!("case {:?}", c)) };
                    ps.exp(b',')?;
                    let l = label!();
                    cs.push((v, l));
                }
                let w = ps.m.bits(ty);
                I::Switch(w, c, d, cs)
            }
            "ret" => { let ty = ps.ty()?; if ps.m.tys[ty as usize] == Ty::Void { I::Ret(None) } else { let o = ps.opnd(ty, regs)?; I::Ret(Some(o)) } }
            "unreachable" => I::Unreachable,
            "phi" => {
                while !ps.is_type_start() && !matches!(ps.peek(), Some(T::L(_))) { ps.p += 1; }
                let ty = ps.ty()?;
                let mut v = vec![];
                loop {
                    ps.exp(b'[')?;
                    let o = ps.opnd(ty, regs)?;
                    ps.exp(b',')?;
                    let l = match ps.next()? { T::L(n) => *bl.get(n.as_ref()).ok_or(format!("label {}", n))?, x => return Err(format!("phi label {:?}", x)) };
                    ps.exp(b']')?;
                    v.push((l, o));
                    if ps.isp(b',') && ps.t.get(ps.p + 1) == Some(&T::P(b'[')) { ps.p += 1; continue; }
                    break;
                }
                blk.phis.push((dst, v));
                return Ok(());
            }
            "extractvalue" => {
                let ty = ps.ty()?;
                let o = ps.opnd(ty, regs)?;
                let mut ix = vec![];
                while ps.isp(b',') && matches!(ps.t.get(ps.p + 1), Some(T::N(_))) { ps.p += 1; ix.push(ps.int()? as u32); }
                I::ExtractValue(o, ix)
            }
            "insertvalue" => {
                let ty = ps.ty()?;
                let o = ps.opnd(ty, regs)?;
                ps.exp(b',')?;
                let t2 = ps.ty()?;
                let v = ps.opnd(t2, regs)?;
                let mut ix = vec![];
                while ps.isp(b',') && matches!(ps.t.get(ps.p + 1), Some(T::N(_))) { ps.p += 1; ix.push(ps.int()? as u32); }
                I::InsertValue(ty, o, v, ix)
            }
            "extractelement" => { let ty = ps.ty()?; let o = ps.opnd(ty, regs)?; ps.exp(b',')?; let t2 = ps.ty()?; let i = ps.opnd(t2, regs)?; I::ExtractElement(o, i) }
            "insertelement" => {
                let ty = ps.ty()?; let o = ps.opnd(ty, regs)?; ps.exp(b',')?;
                let t2 = ps.ty()?; let v = ps.opnd(t2, regs)?; ps.exp(b',')?;
                let t3 = ps.ty()?; let i = ps.opnd(t3, regs)?;
                I::InsertElement(ty, o, v, i)
            }
            "shufflevector" => {
                let ty = ps.ty()?; let a = ps.opnd(ty, regs)?; ps.exp(b',')?;
                let t2 = ps.ty()?; let b = ps.opnd(t2, regs)?; ps.exp(b',')?;
                let t3 = ps.ty()?;
                let n = if let Ty::Vector(n, _) = ps.m.tys[t3 as usize] { n } else { return Err("mask".into()) };
                let c = ps.konst(t3)?;
                let mk = match c {
                    Const::Zero(_) | Const::Undef(_) => vec![0; n as usize],
                    Const::Agg(_, v) => v.iter().map(|c| match c { Const::Int(_, v) => *v as i32, _ => -1 }).collect(),
                    _ => return Err("mask".into()),
                };
                I::Shuffle(a, b, mk)
            }
            "atomicrmw" => {
                ps.eatw("volatile");
                let o = match ps.next()? { T::W(w) => w.to_string(), _ => return Err("rmw".into()) };
                let pt = ps.ty()?; let p = ps.opnd(pt, regs)?; ps.exp(b',')?;
                let ty = ps.ty()?; let v = ps.opnd(ty, regs)?;
                I::AtomicRmw(o, ty, p, v)
            }
            "cmpxchg" => {
                while matches!(ps.peek(), Some(T::W("weak" | "volatile"))) { ps.p += 1; }
                let pt = ps.ty()?; let p = ps.opnd(pt, regs)?; ps.exp(b',')?;
                let ty = ps.ty()?; let a = ps.opnd(ty, regs)?; ps.exp(b',')?;
                let t2 = ps.ty()?; let b = ps.opnd(t2, regs)?;
                I::CmpXchg(ty, p, a, b)
            }
            "freeze" => { let ty = ps.ty()?; let o = ps.opnd(ty, regs)?; I::Freeze(o) }
            "fence" => I::Nop,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" | "indirectbr" | "va_arg" => I::Unsupported(op.clone()),
            _ => I::Unsupported(op.clone()),
        };
        blk.insts.push(Inst { i, dst, dbg });
        Ok(())
    }
}

impl<'a, 'm> Ps<'a, 'm> {
    fn opnd(&mut self, ty: TyId, regs: &mut HashMap<String, u32>) -> R<Opnd> {
        if let Some(T::L(n)) = self.peek() {
            let n = n.to_string();
            self.p += 1;
            let k = regs.len() as u32;
            return Ok(Opnd::Reg(*regs.entry(n).or_insert(k)));
        }
        let c = self.konst(ty)?;
        match &c {
            Const::Int(w, v) if *w <= 64 => return Ok(Opnd::Imm(*v as u64)),
            Const::Null => return Ok(Opnd::Imm(0)),
            Const::Float(_, v) => return Ok(Opnd::Imm(*v)),
            Const::Undef(t) | Const::Zero(t) => match self.m.tys[*t as usize] { Ty::Int(w) if w <= 64 => return Ok(Opnd::Imm(0)), Ty::Ptr | Ty::F32 | Ty::F64 => return Ok(Opnd::Imm(0)), _ => {} },
            _ => {}
        }
        let k = self.m.consts.len() as u32;
        self.m.consts.push((ty, c));
        Ok(Opnd::K(k))
    }
}
