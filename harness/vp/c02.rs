//! C02: decoding agrees with the grammar.
use super::*;
use super::bref::{self, V, P};
use crate::bencode::decode::Decoder;
use crate::bencode::metainfo::Metainfo;
fn compare(b: Vec<u8>) {
    let want = bref::parse(&b);
    let mut d = Decoder::init(b);
    let got = d.decode();
    let used = d.get_total_parsed_bytes();
    match want {
        P::Ok(v, n) => match got {
            Ok(m) => { check(bref::same(&m, &v), "decoded value differs from the encoded one"); check(used == n, "wrong number of parsed bytes"); reach("well formed") }
            Err(_) => fail("well-formed value refused"),
        },
        P::Bad => { check(got.is_err(), "malformed value accepted"); reach("malformed") }
        P::NoValue => { check(match &got { Ok(m) => *m == Metainfo::Nothing(), Err(_) => true }, "a value decoded from bytes that start none"); reach("no value") }
        P::Lenient(Some((v, n))) => { if let Ok(m) = got { check(bref::same(&m, &v), "a different value decoded from a sloppy encoding"); check(used == n, "wrong number of parsed bytes") } }
        P::Lenient(None) => {}
    }
}
fn gen(depth: usize, budget: &mut usize) -> V {
    match choose("kind", if depth == 0 { 2 } else { 4 }) {
        0 => V::I(range("int", 0, param("max_int", 1200))),
        1 => { let n = choose("strlen", 3); V::S(bytes("str", n)) }
        2 => { let mut l = vec![]; let n = choose("list", 3); for _ in 0..n { if *budget == 0 { break } *budget -= 1; l.push(gen(depth - 1, budget)) } V::L(l) }
        _ => {
            let mut l = vec![];
            let n = choose("dict", 3);
            for i in 0..n { if *budget == 0 { break } *budget -= 1; let k = if i == 0 { vec![range("key", 0x20, 0x60) as u8] } else { vec![range("key", 0x61, 0x7e) as u8, range("key", 0x20, 0x7e) as u8] }; l.push((k, gen(depth - 1, budget))) }
            V::D(l)
        }
    }
}
pub fn run() {
    match param("mode", 0) {
        0 => { let n = choose("length", param("len", 6) as usize + 1); compare(bytes("input", n)) }
        1 => {
            // well-formed nested values followed by anything
            let v = gen(param("depth", 2) as usize, &mut (param("nodes", 3) as usize));
            let mut b = bref::enc(&v);
            let k = choose("rest", 2);
            b.extend_from_slice(&bytes("rest", k));
            let n = b.len() - k;
            let mut d = Decoder::init(b);
            match d.decode() {
                Ok(m) => { check(bref::same(&m, &v), "decoded value differs from the encoded one"); check(d.get_total_parsed_bytes() == n, "wrong number of parsed bytes"); reach("well formed") }
                Err(_) => fail("well-formed value refused"),
            }
        }
        5 => {
            let v = bref::large(param("n", 300) as usize);
            let mut b = bref::enc(&v);
            let n = b.len();
            match choose("how", 3) {
                0 => { if bool("more") { b.push(u8("byte")) } }
                1 => b.truncate([1, n / 3, n / 2, n - 2, n - 1][choose("cut", 5)]),
                _ => { let k = [0, n - 1, n / 2, 1][choose("place", if n < 3000 { 4 } else { 3 })]; b[k] = u8("byte") }
            }
            compare(b)
        }
        2 => {
            // integers of any magnitude
            let mut b = vec![b'i'];
            bref::digits(&mut b);
            b.push(u8("end"));
            b.push(u8("after"));
            compare(b)
        }
        3 => {
            // strings of any length up to the bound, with more or less data behind the colon than announced
            let have = param("have", 24) as usize;
            let have = match choose("have", 7) { 0 => 0, 1 => 1, 2 => 2, 3 => 9, 4 => 10, 5 => have - 1, _ => have };
            let nd = 1 + choose("digits", param("nd", 2) as usize);
            let mut b = vec![];
            if bool("nested") { b.push(b'l') }
            for _ in 0..nd { let x = u8("digit"); assume(x >= b'0' && x <= b'9'); b.push(x) }
            b.push(b':');
            for i in 0..have { b.push(if i < 2 || i + 2 >= have { u8("data") } else { i as u8 }) }
            compare(b)
        }
        _ => {
            // one arbitrary byte anywhere in a well-formed text
            let base: &[&[u8]] = &[b"d1:ai10e1:bl2:xyi0eee", b"d8:announce3:abc4:infod6:lengthi12e4:name1:fee", b"ld0:0:eli7e3:abcdeei42ee", b"d1:ad1:bl0:ee2:cci9ee"];
            let mut b = base[choose("text", base.len())].to_vec();
            let i = choose("position", b.len());
            b[i] = u8("byte");
            compare(b)
        }
    }
}
