//! C03: encoding is canonical and decodes back.
use super::*;
use super::bref::{self, V};
use crate::bencode::decode::Decoder;
use crate::bencode::encode::{encode_dict_entry, Encode};
use mstd::collections::HashMap;
fn back(e: Vec<u8>, v: &V) {
    let want = bref::enc(v);
    check(e == want, "encoding is not the canonical one");
    let n = e.len();
    let mut d = Decoder::init(e);
    match d.decode() {
        Ok(m) => { check(bref::same(&m, v), "decode(encode(v)) is not v"); check(d.get_total_parsed_bytes() == n, "decode(encode(v)) leaves bytes over") }
        Err(_) => fail("own encoding refused"),
    }
    reach("round trip")
}
fn s(t: &String) -> V { V::S(t.as_bytes().to_vec()) }
pub fn run() {
    mstd::order::symbolic(true);
    let k = param("chars", 2) as usize;
    match param("mode", 0) {
        0 => match choose("type", 4) {
            0 => { let t = bref::text("char", k); let e = t.encode(); back(e, &s(&t)) }
            1 => { let t = bref::text("char", k); let e = t.as_str().encode(); back(e, &s(&t)) }
            2 => { let n = choose("len", param("bytes", 4) as usize + 1); let b = bytes("byte", n); back(b.encode(), &V::S(b.clone())) }
            _ => {
                // long strings: lengths of several digits, in bytes and in characters
                let n = choose("len", param("long", 130) as usize);
                if bool("text") { let mut t = String::new(); for _ in 0..n { t.push('x') } if n > 0 { t.pop(); t.push(bref::any_char("char")) } back(t.encode(), &s(&t)) }
                else { let mut b = vec![7u8; n]; if n > 0 { b[n - 1] = u8("byte") } back(b.encode(), &V::S(b.clone())) }
            }
        },
        1 => {
            // every value up to 4 digits, and every value close to a power of ten or to the largest one
            let d = choose("around", 21);
            let x = range("int", 0, 1999);
            let mut base: u64 = 1;
            for _ in 0..d { base = base.saturating_mul(10) }
            let v = (base.saturating_sub(if d >= 4 { 1000 } else { base }).min(u64::MAX - 1999) + x) as usize;
            match choose("as", 2) { 0 => back(v.encode(), &V::I(v as u64)), _ => back(Some(v).encode(), &V::I(v as u64)) }
        }
        2 => {
            // lists, also of lists
            let n = choose("n", 4);
            match choose("of", 4) {
                0 => { let l: Vec<usize> = (0..n).map(|_| range("int", 0, 1100) as usize).collect(); let v = V::L(l.iter().map(|x| V::I(*x as u64)).collect()); back(l.encode(), &v) }
                1 => { let l: Vec<String> = (0..n).map(|_| bref::text("char", 1)).collect(); let v = V::L(l.iter().map(s).collect()); back(l.encode(), &v) }
                2 => { let l: Vec<Vec<u8>> = (0..n).map(|_| { let n = choose("len", 3); bytes("byte", n) }).collect(); let v = V::L(l.iter().map(|x| V::S(x.clone())).collect()); back(l.encode(), &v) }
                _ => { let l: Vec<Vec<usize>> = (0..n).map(|_| { let n = choose("len", 3); (0..n).map(|_| range("int", 0, 99) as usize).collect() }).collect(); let v = V::L(l.iter().map(|x| V::L(x.iter().map(|x| V::I(*x as u64)).collect())).collect()); back(l.encode(), &v) }
            }
        }
        3 => {
            // dictionaries, in every iteration order
            let n = choose("n", param("entries", 3) as usize + 1);
            let mut keys: Vec<String> = vec![];
            for i in 0..n {
                let k = if param("wide", 0) == 1 { bref::text("key", 1) } else { let l = choose("keylen", 3); let mut k = String::new(); for _ in 0..l { k.push(range("key", 0, 0x7f) as u8 as char) } k };
                for p in &keys { assume(*p != k) }
                keys.push(k);
            }
            match choose("of", 3) {
                0 => { let mut m: HashMap<String, usize> = HashMap::new(); let mut v = vec![]; for k in &keys { let x = range("int", 0, 99); m.insert(k.clone(), x as usize); v.push((k.as_bytes().to_vec(), V::I(x))) } back(m.encode(), &V::D(v)) }
                1 => { let mut m: HashMap<String, Vec<u8>> = HashMap::new(); let mut v = vec![]; for k in &keys { let n = choose("len", 2); let x = bytes("byte", n); m.insert(k.clone(), x.clone()); v.push((k.as_bytes().to_vec(), V::S(x))) } back(m.encode(), &V::D(v)) }
                _ => {
                    let mut m: HashMap<String, HashMap<String, usize>> = HashMap::new();
                    let mut v = vec![];
                    for k in &keys { let mut i: HashMap<String, usize> = HashMap::new(); let mut iv = vec![]; if bool("inner") { i.insert("z".to_string(), 1); i.insert("a".to_string(), 2); iv = vec![(vec![b'a'], V::I(2)), (vec![b'z'], V::I(1))] } m.insert(k.clone(), i); v.push((k.as_bytes().to_vec(), V::D(iv))) }
                    back(m.encode(), &V::D(v))
                }
            }
        }
        5 => {
            mstd::order::symbolic(false);
            let n = param("n", 300) as usize;
            match choose("of", 6) {
                0 => { let mut l: Vec<usize> = (0..n).map(|i| i * 1_000_003).collect(); l[[0, n / 2, n - 1][choose("at", 3)]] = range("int", 0, 1100) as usize; let v = V::L(l.iter().map(|x| V::I(*x as u64)).collect()); back(l.encode(), &v) }
                1 => { let mut l: Vec<String> = (0..n).map(|i| "x".repeat(i)).collect(); l[[0, n / 2, n - 1][choose("at", 3)]].push(bref::any_char("char")); let v = V::L(l.iter().map(s).collect()); back(l.encode(), &v) }
                2 => { let n = [255usize, 256, 65535, 65536, 100_000, 1 << 20][choose("size", 6)]; let mut b: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect(); b[[0, n / 2, n - 1][choose("at", 3)]] = u8("byte"); back(b.encode(), &V::S(b.clone())) }
                3 => { let n = [255usize, 256, 65535, 65536, 100_000][choose("size", 5)]; let mut t = "t".repeat(n); t.push(bref::any_char("char")); back(t.encode(), &s(&t)) }
                4 => {
                    let mut m: HashMap<String, usize> = HashMap::new();
                    let mut v = vec![];
                    let odd = range("int", 0, 99);
                    for i in 0..n { let i = i * 7 % n; let k = ::std::format!("{}", i * 13); let x = if i == 5 { odd } else { i as u64 }; m.insert(k.clone(), x as usize); v.push((k.into_bytes(), V::I(x))) }
                    back(m.encode(), &V::D(v))
                }
                _ => { let l: Vec<Vec<Vec<usize>>> = (0..n).map(|i| (0..i % 4).map(|j| (0..j).collect()).collect()).collect(); let v = V::L(l.iter().map(|x| V::L(x.iter().map(|y| V::L(y.iter().map(|z| V::I(*z as u64)).collect())).collect())).collect()); let _ = range("int", 0, 1); back(l.encode(), &v) }
            }
        }
        _ => {
            // entries of hand-written dictionaries
            let mut key = bref::text("key", 2);
            if key.is_empty() { key.push('k') }
            let (e, v) = match choose("of", 5) {
                0 => { let x = range("int", 0, 1100); (encode_dict_entry(&key, &(x as usize)), V::I(x)) }
                1 => { let n = choose("len", 3); let b = bytes("byte", n); (encode_dict_entry(&key, &b), V::S(b)) }
                2 => { let t = bref::text("char", 2); (encode_dict_entry(&key, &t), s(&t)) }
                3 => { let x = range("int", 0, 1100); (encode_dict_entry(&key, &Some(x as usize)), V::I(x)) }
                _ => { let n = choose("n", 3); let l: Vec<String> = (0..n).map(|_| bref::text("char", 1)).collect(); let v = V::L(l.iter().map(s).collect()); (encode_dict_entry(&key, &Some(l)), v) }
            };
            let mut b = vec![b'd'];
            b.extend_from_slice(&e);
            b.push(b'e');
            back(b, &V::D(vec![(key.as_bytes().to_vec(), v)]));
            let none: Option<usize> = None;
            check(encode_dict_entry("k", &none).is_empty(), "an absent value is encoded");
        }
    }
}
