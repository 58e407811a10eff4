//! Reference reading and writing of bencode, written from the grammar and independent of the code under test.
use super::*;
use crate::bencode::metainfo::Metainfo;
#[derive(Clone, Debug, PartialEq)]
pub enum V { I(u64), S(Vec<u8>), L(Vec<V>), D(Vec<(Vec<u8>, V)>) }
/// what the grammar says about the bytes at the start of an input
pub enum P {
    /// well formed: the value and its length
    Ok(V, usize),
    /// starts a value but is not well formed
    Bad,
    /// does not start a value
    NoValue,
    /// well formed only in lenient readings (leading zeros, unsorted or repeated keys): an error, or the lenient value if there is one
    Lenient(Option<(V, usize)>),
}
struct Rd<'a> { b: &'a [u8], lenient: bool, repeated: bool }
enum E { Bad, NoValue }
impl<'a> Rd<'a> {
    fn at(&self, i: usize) -> Result<u8, E> { if i < self.b.len() { Ok(self.b[i]) } else { Err(E::Bad) } }
    fn num(&mut self, mut i: usize, end: u8) -> Result<(u64, usize), E> {
        let s = i;
        let mut v: u64 = 0;
        loop {
            let c = self.at(i)?;
            if c >= b'0' && c <= b'9' {
                v = match v.checked_mul(10).and_then(|v| v.checked_add((c - b'0') as u64)) { Some(v) => v, None => return Err(E::Bad) };
                i += 1;
            } else if c == end { break; } else { return Err(E::Bad); }
        }
        if i == s { return Err(E::Bad); }
        if i - s > 1 && self.b[s] == b'0' { self.lenient = true; }
        Ok((v, i + 1))
    }
    fn string(&mut self, i: usize) -> Result<(Vec<u8>, usize), E> {
        let (n, i) = self.num(i, b':')?;
        if n > (self.b.len() - i) as u64 { return Err(E::Bad); }
        let n = n as usize;
        Ok((self.b[i..i + n].to_vec(), i + n))
    }
    fn val(&mut self, i: usize) -> Result<(V, usize), E> {
        let c = match self.b.get(i) { Some(c) => *c, None => return Err(E::NoValue) };
        if c == b'i' { let (v, i) = self.num(i + 1, b'e')?; return Ok((V::I(v), i)); }
        if c >= b'0' && c <= b'9' { let (v, i) = self.string(i)?; return Ok((V::S(v), i)); }
        if c == b'l' {
            let mut i = i + 1;
            let mut l = vec![];
            while self.at(i)? != b'e' { let (v, j) = self.val(i).map_err(|_| E::Bad)?; l.push(v); i = j; }
            return Ok((V::L(l), i + 1));
        }
        if c == b'd' {
            let mut i = i + 1;
            let mut l: Vec<(Vec<u8>, V)> = vec![];
            while self.at(i)? != b'e' {
                let (k, j) = self.string(i)?;
                if ::std::str::from_utf8(&k).is_err() { return Err(E::Bad); }
                let (v, j) = self.val(j).map_err(|_| E::Bad)?;
                if let Some((p, _)) = l.last() { if !(p < &k) { self.lenient = true; } }
                if l.iter().any(|(p, _)| *p == k) { self.repeated = true; }
                l.push((k, v));
                i = j;
            }
            return Ok((V::D(l), i + 1));
        }
        Err(E::NoValue)
    }
}
pub fn parse(b: &[u8]) -> P {
    let mut r = Rd { b, lenient: false, repeated: false };
    match r.val(0) {
        Ok((v, n)) => if r.repeated { P::Lenient(None) } else if r.lenient { P::Lenient(Some((v, n))) } else { P::Ok(v, n) },
        Err(E::Bad) => if r.lenient || r.repeated { P::Bad } else { P::Bad },
        Err(E::NoValue) => P::NoValue,
    }
}
pub fn enc(v: &V) -> Vec<u8> { let mut o = vec![]; put(v, &mut o); o }
pub fn put_num(mut v: u64, o: &mut Vec<u8>) {
    // number of digits by comparison, then digits by division
    let mut d = 1usize;
    let mut p: u64 = 10;
    while v >= p { d += 1; if d == 20 { break; } p *= 10; }
    let s = o.len();
    o.resize(s + d, 0);
    for i in (0..d).rev() { o[s + i] = b'0' + (v % 10) as u8; v /= 10; }
}
pub fn put_str(b: &[u8], o: &mut Vec<u8>) { put_num(b.len() as u64, o); o.push(b':'); o.extend_from_slice(b); }
pub fn put(v: &V, o: &mut Vec<u8>) {
    match v {
        V::I(n) => { o.push(b'i'); put_num(*n, o); o.push(b'e') }
        V::S(s) => put_str(s, o),
        V::L(l) => { o.push(b'l'); for v in l { put(v, o) } o.push(b'e') }
        V::D(d) => {
            o.push(b'd');
            let mut ix: Vec<usize> = (0..d.len()).collect();
            for i in 1..ix.len() { let mut j = i; while j > 0 && d[ix[j]].0 < d[ix[j - 1]].0 { ix.swap(j, j - 1); j -= 1; } }
            for i in ix { put_str(&d[i].0, o); put(&d[i].1, o) }
            o.push(b'e')
        }
    }
}
/// is the decoded value the reference value?
pub fn same(m: &Metainfo, v: &V) -> bool {
    match (m, v) {
        (Metainfo::Integer(a), V::I(b)) => *a as u64 == *b,
        (Metainfo::String(a), V::S(b)) => a == b,
        (Metainfo::List(a), V::L(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| same(a, b)),
        (Metainfo::Dictionary(a), V::D(b)) => a.len() == b.len() && b.iter().all(|(k, v)| match ::std::str::from_utf8(k) { Ok(k) => a.get(k).map_or(false, |m| same(m, v)), Err(_) => false }),
        _ => false,
    }
}
pub fn to_metainfo(v: &V) -> Metainfo {
    match v {
        V::I(n) => Metainfo::Integer(*n as usize),
        V::S(s) => Metainfo::String(s.clone()),
        V::L(l) => Metainfo::List(l.iter().map(to_metainfo).collect()),
        V::D(d) => { let mut m = mstd::collections::HashMap::new(); for (k, v) in d { m.insert(String::from_utf8(k.clone()).unwrap(), to_metainfo(v)); } Metainfo::Dictionary(m) }
    }
}
/// text of up to n characters, every character of every encoded length
pub fn text(name: &str, n: usize) -> String {
    let k = choose(name, n + 1);
    let mut s = String::new();
    for _ in 0..k { s.push(any_char(name)); }
    s
}
/// any character; the length of its encoding is decided first
pub fn any_char(name: &str) -> char {
    let c = match choose("char class", 5) { 0 => range(name, 0, 0x7f), 1 => range(name, 0x80, 0x7ff), 2 => range(name, 0x800, 0xd7ff), 3 => range(name, 0xe000, 0xffff), _ => range(name, 0x10000, 0x10ffff) };
    unsafe { char::from_u32_unchecked(c as u32) }
}
pub fn ascii(name: &str) -> char { range(name, 0, 0x7f) as u8 as char }
/// decimal digits: up to `free` arbitrary ones, or 1..5 arbitrary ones after 16 given ones (around the largest usize)
pub fn digits(b: &mut Vec<u8>) {
    let f = param("free", 6) as usize;
    let n = choose("digits", f + 6);
    let free = if n <= f { n } else { b.extend_from_slice(match choose("prefix", 3) { 0 => b"1844674407370955", 1 => b"9999999999999999", _ => b"0000000000000000" }); n - f };
    for _ in 0..free { b.push(range("digit", b'0' as u64, b'9' as u64) as u8) }
}

/// large values of several kinds, arbitrary in one small place
pub fn large(n: usize) -> V {
    let odd = || { V::S(vec![u8("byte")]) };
    let list = |n: usize| -> Vec<V> { (0..n).map(|i| match i % 3 { 0 => V::I(i as u64), 1 => V::S(vec![i as u8; i % 5]), _ => V::L(vec![V::I(7)]) }).collect() };
    let key = |i: usize| -> Vec<u8> { let mut k = vec![b'a' + (i / 676 % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8]; for _ in 0..i % 4 { k.push(b'x') } k };
    match choose("large", 7) {
        // a list, a dictionary
        0 => { let mut l = list(n); let at = [0, 255.min(n - 1), n / 2, n - 1][choose("at", 4)]; l[at] = odd(); V::L(l) }
        1 => { let mut d: Vec<_> = (0..n).map(|i| (key(i), V::I(i as u64))).collect(); let at = [0, 255.min(n - 1), n / 2, n - 1][choose("at", 4)]; d[at].1 = odd(); V::D(d) }
        // strings
        2 => { let n = [255usize, 256, 1000, 16384, 65535, 65536, 100_000, 200_000][choose("size", 8)]; let mut s: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect(); let at = [0, n / 2, n - 1][choose("at", 3)]; s[at] = u8("byte"); V::L(vec![V::S(s), V::I(1)]) }
        // a long key
        3 => { let k = [100usize, 255, 256, 5000][choose("key", 4)]; V::D(vec![(vec![b'm'; k], odd()), (vec![b'n'; k], V::I(3))]) }
        // values in values
        4 => { let mut v = odd(); let n = [10usize, 17, 33, 60][choose("depth", 4)]; for i in 0..n { v = if i % 2 == 0 { V::L(vec![V::I(i as u64), v, V::L(vec![])]) } else { V::D(vec![(b"a".to_vec(), V::I(1)), (b"b".to_vec(), v), (b"c".to_vec(), V::S(vec![]))]) } } v }
        // many empty ones, many small strings
        5 => { let mut l = vec![]; for i in 0..n { l.push(match i % 3 { 0 => V::S(vec![]), 1 => V::L(vec![]), _ => V::D(vec![]) }) } l.push(odd()); V::L(l) }
        // metadata of many files
        _ => { let f = (0..n).map(|i| V::D(vec![(b"length".to_vec(), V::I(i as u64 * 1_000_003)), (b"path".to_vec(), V::L(vec![V::S(b"dir".to_vec()), V::S(key(i))]))])).collect(); V::D(vec![(b"files".to_vec(), V::L(f)), (b"name".to_vec(), odd()), (b"piece length".to_vec(), V::I(1 << 24)), (b"pieces".to_vec(), V::S(vec![0xe9; 20 * n]))]) }
    }
}
