//! C04: metadata is accepted only if usable, and faithfully.
use super::*;
use super::bref::{self, V};
use crate::bencode::encode::Encode;
use crate::bencode::metainfo::Metainfo;
use crate::torrent::info::Info;
use crate::torrent::writer::get_file_writers;
fn key(k: &str) -> Vec<u8> { k.as_bytes().to_vec() }
fn get<'a>(d: &'a [(Vec<u8>, V)], k: &str) -> Option<&'a V> { d.iter().find(|e| e.0 == k.as_bytes()).map(|e| &e.1) }
fn utf8(b: &[u8]) -> bool { ::std::str::from_utf8(b).is_ok() }
/// path components and length of one entry
struct F { path: Vec<Vec<u8>>, len: u64 }
struct Want { name: Vec<u8>, pl: u64, pieces: Vec<u8>, files: Vec<F>, total: Option<u64>, plain: bool, multi: bool }
fn plain(p: &[u8]) -> bool { !p.is_empty() && p != b"." && p != b".." && !p.iter().any(|c| *c == b'/' || *c == b'\\' || *c == 0) }
/// what the metadata says, if it is well typed; None: it has to be refused
fn read(d: &[(Vec<u8>, V)]) -> Option<Want> {
    let name = match get(d, "name") { Some(V::S(s)) if utf8(s) => s.clone(), _ => return None };
    let pl = match get(d, "piece length") { Some(V::I(n)) => *n, _ => return None };
    let pieces = match get(d, "pieces") { Some(V::S(s)) => s.clone(), _ => return None };
    let mut files = vec![];
    let multi = match get(d, "files") {
        Some(V::L(l)) => {
            for e in l {
                let e = match e { V::D(e) => e, _ => return None };
                let len = match get(e, "length") { Some(V::I(n)) => *n, _ => return None };
                let mut path = vec![];
                match get(e, "path") { Some(V::L(p)) => for c in p { match c { V::S(s) if utf8(s) => path.push(s.clone()), _ => return None } }, _ => return None }
                files.push(F { path, len });
            }
            true
        }
        _ => { match get(d, "length") { Some(V::I(n)) => files.push(F { path: vec![name.clone()], len: *n }), _ => return None } false }
    };
    let mut total = Some(0u64);
    for f in &files { total = total.and_then(|t| t.checked_add(f.len)) }
    let plain = files.iter().all(|f| !f.path.is_empty() && f.path.iter().all(|c| plain(c)));
    Some(Want { name, pl, pieces, files, total, plain, multi })
}
/// number of hashes matches: (k-1)*pl < total <= k*pl, without division
fn count_ok(total: u64, pl: u64, hashes: usize) -> bool {
    if hashes % 20 != 0 { return false; }
    let k = (hashes / 20) as u64;
    if k == 0 { return total == 0; }
    let low = pl.checked_mul(k - 1);
    let high = pl.checked_mul(k);
    match low { None => return false, Some(l) => if total <= l { return false; } }
    match high { None => true, Some(h) => total <= h }
}
fn judge(d: &[(Vec<u8>, V)], r: Result<Info, crate::torrent::info::InfoError>, odd: bool, write: bool) {
    let w = read(d);
    let i = match r {
        Err(_) => {
            if let Some(w) = &w {
                let usable = w.pl > 0 && w.pl <= u32::MAX as u64 && w.plain && match w.total { Some(t) => count_ok(t, w.pl, w.pieces.len()), None => false };
                // an empty list of files, and files of the wrong type next to a length, may be refused
                check(!usable || odd || w.files.is_empty(), "usable metadata is refused");
            }
            reach("refused");
            return;
        }
        Ok(i) => i,
    };
    let w = match w { Some(w) => w, None => fail("incomplete or mistyped metadata is accepted") };
    check(w.pl > 0, "piece length zero is accepted");
    let total = match w.total { Some(t) => t, None => fail("overflowing lengths are accepted") };
    check(count_ok(total, w.pl, w.pieces.len()), "wrong number of piece hashes is accepted");
    check(i.get_piece_length() as u64 == w.pl, "piece length changed");
    check(i.get_total_length() as u64 == total, "total length changed");
    let fs = match i.get_files() { Ok(f) => f, Err(_) => fail("accepted info without files") };
    check(fs.len() == w.files.len(), "number of files changed");
    for (a, b) in fs.iter().zip(w.files.iter()) {
        check(a.get_length() as u64 == b.len, "file length changed");
        let p = a.get_path();
        check(p.len() == b.path.len(), "path changed");
        for (a, b) in p.iter().zip(b.path.iter()) { check(a.as_bytes() == &b[..], "path changed") }
    }
    for k in 0..w.pieces.len() / 20 { check(i.get_piece(k) == &w.pieces[20 * k..20 * k + 20], "piece hash changed") }
    // nothing done with it crashes
    let _ = i.compute_info_hash();
    let _ = i.encode();
    if w.pieces.len() >= 20 { let _ = i.verify_piece(b"x", 0); let _ = i.verify_piece(b"", w.pieces.len() / 20 - 1); }
    check(i.clone() == i, "a copy differs");
    if write && total <= 64 && w.pieces.len() >= 20 {
        for k in 0..w.pieces.len() / 20 {
            let n = if k + 1 == w.pieces.len() / 20 { total - w.pl * k as u64 } else { w.pl };
            let n = concretize(n) as usize;
            let _ = get_file_writers(fs.clone(), vec![1; n], k, w.pl as usize);
        }
        reach("written");
    }
    reach("accepted");
    if w.multi { reach("files accepted") }
}
/// every value is given to the reader as a decoded value or as bytes
fn go(d: Vec<(Vec<u8>, V)>, odd: bool) { judged(d, odd, true) }
fn judged(d: Vec<(Vec<u8>, V)>, odd: bool, write: bool) {
    let v = V::D(d);
    let r = if param("bytes", 0) == 1 { Info::from_bytes(bref::enc(&v)) } else { Info::from_metainfo(&bref::to_metainfo(&v)) };
    match v { V::D(d) => judge(&d, r, odd, write), _ => {} }
}
fn comp() -> V {
    match choose("component", 6) { 0 => V::S(b"a".to_vec()), 1 => V::S(bref::text("char", 1).into_bytes()), 2 => V::S(vec![u8("byte")]), 3 => V::S(b"..".to_vec()), 4 => V::I(1), _ => V::S("d\u{e9}".as_bytes().to_vec()) }
}
fn entry(full: bool) -> V {
    if !full { return V::D(vec![(key("length"), V::I(9)), (key("path"), V::L(vec![V::S(b"b".to_vec())]))]) }
    match choose("entry", 4) {
        0 => match choose("kind", 3) { 0 => V::I(3), 1 => V::S(vec![u8("byte")]), _ => V::L(vec![]) },
        1 => { let mut e = vec![]; match choose("length", 3) { 0 => {} 1 => e.push((key("length"), V::S(b"4".to_vec()))), _ => e.push((key("length"), V::I(range("length", 0, 12)))) } match choose("path", 4) { 0 => {} 1 => e.push((key("path"), V::S(b"p".to_vec()))), 2 => e.push((key("path"), V::L(vec![]))), _ => e.push((key("path"), V::L(vec![V::S(b"p".to_vec())]))) } V::D(e) }
        _ => { let n = choose("components", 3); let p = (0..n).map(|_| comp()).collect(); V::D(vec![(key("length"), V::I(range("length", 0, 12))), (key("path"), V::L(p))]) }
    }
}
fn hashes(max: usize) -> Vec<u8> { let n = match choose("hashes", 2 * max + 2) { x if x < max + 1 => 20 * x, x => 20 * (x - max - 1) + 7 }; let mut b = vec![3; n]; for i in (0..n).step_by(20) { b[i] = u8("hash") } b }
fn std(d: &mut Vec<(Vec<u8>, V)>, name: bool, length: Option<u64>, pl: Option<u64>, pieces: Option<Vec<u8>>) {
    if let Some(l) = length { d.push((key("length"), V::I(l))) }
    if name { d.push((key("name"), V::S(b"n".to_vec()))) }
    if let Some(p) = pl { d.push((key("piece length"), V::I(p))) }
    if let Some(p) = pieces { d.push((key("pieces"), V::S(p))) }
}
pub fn run() {
    let small = || Some(range("length", 0, 40));
    match param("mode", 0) {
        // one field absent or of another type
        0 => {
            let mut d = vec![];
            let mut odd = false;
            match choose("field", 7) {
                0 => { match choose("name", 4) { 0 => {} 1 => d.push((key("name"), V::I(range("int", 0, 99)))), 2 => { let n = choose("len", 3); d.push((key("name"), V::S(bytes("byte", n)))) } _ => d.push((key("name"), V::S(bref::text("char", 2).into_bytes()))) } std(&mut d, false, small(), Some(20), Some(hashes(2))) }
                1 => { match choose("pl", 3) { 0 => {} 1 => d.push((key("piece length"), V::S(b"16384".to_vec()))), _ => d.push((key("piece length"), V::L(vec![]))) } std(&mut d, true, small(), None, Some(hashes(1))) }
                2 => { match choose("length", 3) { 0 => {} 1 => d.push((key("length"), V::S(b"5".to_vec()))), _ => d.push((key("length"), V::D(vec![]))) } std(&mut d, true, None, Some(20), Some(hashes(1))) }
                3 => { match choose("pieces", 3) { 0 => {} 1 => d.push((key("pieces"), V::I(20))), _ => d.push((key("pieces"), V::L(vec![V::S(vec![0; 20])]))) } std(&mut d, true, small(), Some(20), None) }
                4 => { odd = true; d.push((key("files"), match choose("files", 3) { 0 => V::I(1), 1 => V::S(b"x".to_vec()), _ => V::D(vec![]) })); std(&mut d, true, if bool("length too") { small() } else { None }, Some(20), Some(hashes(2))) }
                5 => { d.push((key("private"), V::I(1))); d.push((key(""), V::L(vec![]))); std(&mut d, true, small(), Some(20), Some(hashes(2))) }
                _ => {
                    // no dictionary at all
                    let m = match choose("value", 4) { 0 => Metainfo::Integer(1), 1 => Metainfo::String(vec![u8("byte")]), 2 => Metainfo::List(vec![Metainfo::Integer(2)]), _ => Metainfo::Nothing() };
                    check(Info::from_metainfo(&m).is_err(), "metadata without a dictionary is accepted");
                    return;
                }
            }
            go(d, odd)
        }
        // any length, usual and extreme piece lengths
        1 => {
            let pl = [0u64, 1, 20, 16384, 16385, 1 << 20, 0x7fff_ffff, 1 << 31, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX][choose("piece length", 12)];
            let mut d = vec![];
            std(&mut d, true, Some(u64("length")), Some(pl), Some(hashes(param("hashes", 3) as usize)));
            go(d, false)
        }
        // any piece length, and lengths to match
        2 => {
            let mut d = vec![];
            let pl = range("piece length", 0, param("pl", 1023));
            std(&mut d, true, Some(range("length", 0, param("total", 4095))), Some(pl), Some(hashes(param("hashes", 3) as usize)));
            go(d, false)
        }
        // lists of files
        3 => {
            let n = choose("files", param("files", 2) as usize + 1);
            let odd = choose("which", n.max(1));
            let l = (0..n).map(|i| entry(i == odd)).collect();
            let mut d = vec![(key("files"), V::L(l))];
            std(&mut d, true, if bool("length too") { Some(7) } else { None }, Some(10), Some(vec![3; [20, 40, 27][choose("hashes", 3)]]));
            go(d, false)
        }
        // many pieces, many files, long paths and names
        5 => {
            let mut d = vec![];
            match choose("large", 4) {
                0 => {
                    let n = [255usize, 256, 257, 4096, param("many", 70000) as usize][choose("pieces", 5)];
                    let less = choose("missing", 3);
                    let mut h: Vec<u8> = (0..20 * n).map(|i| (i / 20 % 251) as u8).collect();
                    h[20 * n - 1] = u8("hash");
                    let k = [0, 1, 20][less];
                    h.truncate(20 * n - k);
                    std(&mut d, true, Some(range("length", 16384 * (n as u64 - 1) - 20, 16384 * (n as u64) + 20)), Some(16384), Some(h))
                }
                1 => {
                    let n = [100usize, 255, 256, 1000][choose("files", 4)];
                    let at = [0, 99, n / 2, n - 1][choose("at", 4)];
                    let odd = choose("odd", 4);
                    let l = (0..n).map(|i| { let mut p = vec![V::S(b"d".to_vec()), V::S(::std::format!("f{}", i).into_bytes())]; let mut len = i as u64; if i == at { match odd { 0 => p.push(V::S(b"..".to_vec())), 1 => p[1] = V::I(1), 2 => len = range("length", 0, 4000), _ => p[1] = V::S(vec![u8("byte")]) } } V::D(vec![(key("length"), V::I(len)), (key("path"), V::L(p))]) }).collect();
                    d.push((key("files"), V::L(l)));
                    std(&mut d, true, None, Some((n * (n - 1) / 2 + 5) as u64), Some(vec![9; 20]))
                }
                2 => {
                    let n = [10usize, 64, 65, 200][choose("components", 4)];
                    let mut p: Vec<V> = (0..n).map(|_| V::S(b"c".to_vec())).collect();
                    let at = [0, n / 2, n - 1][choose("at", 3)];
                    p[at] = V::S(if bool("up") { b"..".to_vec() } else { vec![u8("byte")] });
                    d.push((key("files"), V::L(vec![V::D(vec![(key("length"), V::I(7)), (key("path"), V::L(p))])])));
                    std(&mut d, true, None, Some(9), Some(vec![9; 20]))
                }
                _ => {
                    let n = [100usize, 254, 255, 256, 5000][choose("name", 5)];
                    let mut s = vec![b'n'; n];
                    s[[0, n / 2, n - 1][choose("at", 3)]] = u8("byte");
                    d.push((key("name"), V::S(s)));
                    std(&mut d, false, Some(7), Some(9), Some(vec![9; 20]))
                }
            }
            judged(d, false, false)
        }
        // file lengths that add up or overflow
        _ => {
            let n = choose("files", 3) + 1;
            let l = (0..n).map(|i| V::D(vec![(key("length"), V::I(u64("length"))), (key("path"), V::L(vec![V::S(vec![b'a' + i as u8])]))])).collect();
            let mut d = vec![(key("files"), V::L(l))];
            let pl = [16384u64, 0x8000_0000, 0xffff_ffff][choose("piece length", 3)];
            std(&mut d, true, None, Some(pl), Some(hashes(2)));
            judged(d, false, false)
        }
    }
}
