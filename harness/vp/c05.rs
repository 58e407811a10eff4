//! C05: the info-hash of accepted metadata is that of its bytes.
use super::*;
use super::bref::{self, V};
use crate::bencode::encode::Encode;
use crate::torrent::info::Info;
use sha1::{Digest, Sha1};
fn key(k: &str) -> Vec<u8> { k.as_bytes().to_vec() }
fn name(n: usize) -> V { let s = bref::text("char", n); assume(!s.is_empty()); for c in s.bytes() { assume(c != 0 && c != b'/' && c != b'\\') } assume(s != "." && s != ".."); V::S(s.into_bytes()) }
pub fn run() {
    // piece length, number of pieces, and total lengths in a narrow band around the boundaries
    let (pl, k, lo, hi) = if param("large", 0) == 1 { match choose("size", 5) {
        0 => (1u64 << 30, 5usize, 1u64 << 32 | 1, (1u64 << 32) + 99), 1 => (1 << 30, 2, (1 << 31) - 99, 1 << 31), 2 => (1 << 30, 3, (1 << 31) + 1, (1 << 31) + 99),
        3 => (0xffff_ffff, 1, 0xffff_ffff - 95, 0xffff_ffff), _ => (1 << 16, 1000, (1000 << 16) - 64, 1000 << 16) } } else { match choose("size", 6) {
        0 => (16384u64, 1usize, 1u64, 99u64), 1 => (16384, 1, 16300, 16384), 2 => (1, 1, 1, 1), 3 => (range("piece length", 9, 11), 2, 12, 18),
        4 => (1 << 20, 2, (1 << 20) + 1, 1048599), _ => (1 << 20, 2, 2097100, 2 << 20) } };
    let n = param("chars", 2) as usize;
    let mut d: Vec<(Vec<u8>, V)> = vec![];
    if param("large", 0) == 2 {
        // many files, many pieces, long names and paths
        let (mut pl, mut k, mut total) = (16384u64, 1usize, 100u64);
        match choose("large", 4) {
            0 => { k = [255usize, 256, 257, 66000][choose("pieces", 4)]; total = 16384 * k as u64 - if k > 1000 { 5 } else { range("less", 0, 99) }; d.push((key("length"), V::I(total))); d.push((key("name"), V::S(b"n".to_vec()))) }
            1 => {
                let nf = [100usize, 256, 400][choose("files", 3)];
                let at = [0, nf / 2, nf - 1][choose("at", 3)];
                let l = (0..nf).map(|i| V::D(vec![(key("length"), V::I(if i == at { range("length", 10, 99) } else { i as u64 })), (key("path"), V::L(vec![V::S(b"d".to_vec()), V::S(::std::format!("f{}", i).into_bytes())]))])).collect();
                pl = (nf * nf) as u64;
                d.push((key("files"), V::L(l)));
                d.push((key("name"), V::S(b"dir".to_vec())));
            }
            2 => {
                let nc = [10usize, 64, 65, 200][choose("components", 4)];
                let mut p: Vec<V> = (0..nc).map(|i| V::S(vec![b'c'; i + 1])).collect();
                p[[0, nc / 2, nc - 1][choose("at", 3)]] = V::S(vec![range("byte", b'a' as u64, b'z' as u64) as u8]);
                d.push((key("files"), V::L(vec![V::D(vec![(key("length"), V::I(7)), (key("path"), V::L(p))])])));
                d.push((key("name"), V::S(b"dir".to_vec())));
            }
            _ => { let n = [99usize, 100, 255, 256, 5000][choose("name", 5)]; let mut s = vec![b'n'; n]; s[[0, n / 2, n - 1][choose("at", 3)]] = range("byte", b'a' as u64, b'z' as u64) as u8; d.push((key("length"), V::I(total))); d.push((key("name"), V::S(s))) }
        }
        d.push((key("piece length"), V::I(pl)));
        let mut h: Vec<u8> = (0..20 * k).map(|i| (i / 20 % 251) as u8).collect();
        h[20 * k - 1] = u8("hash");
        d.push((key("pieces"), V::S(h)));
        let b = bref::enc(&V::D(d));
        let i = match Info::from_bytes(b.clone()) { Ok(i) => i, Err(_) => fail("usable metadata is refused") };
        check(i.encode() == b, "encoding accepted info does not give back the metadata");
        check(i.compute_info_hash() == Sha1::digest(&b).as_slice(), "the info-hash is not that of the metadata");
        reach("same bytes");
        return;
    }
    if bool("multi") {
        let nf = 1 + choose("files", param("files", 2) as usize);
        let mut l = vec![];
        let odd = choose("which", nf);
        let mut rest = 0;
        for i in 0..nf {
            let len = if i + 1 == nf { range("length", lo.saturating_sub(rest), hi - rest) } else { let f = [0, 1, 12][choose("first", 3)].min(hi - rest); rest += f; f };
            let nc = if i == odd { 1 + choose("components", 2) } else { 1 };
            let path = (0..nc).map(|_| if i == odd { name(n + 1 - nc) } else { V::S(b"f".to_vec()) }).collect();
            l.push(V::D(vec![(key("length"), V::I(len)), (key("path"), V::L(path))]));
        }
        d.push((key("files"), V::L(l)));
        d.push((key("name"), V::S(b"dir".to_vec())));
    } else {
        d.push((key("length"), V::I(range("length", lo, hi))));
        d.push((key("name"), name(n)));
    }
    d.push((key("piece length"), V::I(pl)));
    d.push((key("pieces"), V::S(if k > 10 { let mut h = vec![7; 20 * k]; h[20 * k - 1] = u8("hash"); h } else { bytes("hash", 20 * k) })));
    let b = bref::enc(&V::D(d));
    let i = match Info::from_bytes(b.clone()) { Ok(i) => i, Err(_) => fail("usable metadata is refused") };
    check(i.encode() == b, "encoding accepted info does not give back the metadata");
    check(i.compute_info_hash() == Sha1::digest(&b).as_slice(), "the info-hash is not that of the metadata");
    reach("same bytes");
}
