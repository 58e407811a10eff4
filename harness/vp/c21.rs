//! C21: stored torrent info reloads identically or is refused.
use super::*;
use super::bref::{self, V};
use super::env;
use crate::bencode::encode::Encode;
use crate::torrent::info::Info;
fn key(k: &str) -> Vec<u8> { k.as_bytes().to_vec() }
const AT: &str = "./downloads/info";
fn name(n: usize) -> V {
    // every ASCII character, and windows of 64 two-, three- and four-byte characters
    let mut v: Vec<u8> = vec![];
    for _ in 0..n {
        let w: &[u8] = [&b""[..], b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98"][choose("window", 4)];
        v.extend_from_slice(w);
        v.push(if w.is_empty() { let c = range("char", 1, 127) as u8; assume(c != b'/' && c != b'\\' && c != b'.'); c } else { range("char", 128, 191) as u8 });
    }
    return V::S(v);
}
fn info(d: Vec<(Vec<u8>, V)>) -> Info { match Info::from_bytes(bref::enc(&V::D(d))) { Ok(i) => i, Err(_) => fail("usable metadata is refused") } }
fn single(len: u64, nm: V, pl: u64, h: Vec<u8>) -> Vec<(Vec<u8>, V)> { vec![(key("length"), V::I(len)), (key("name"), nm), (key("piece length"), V::I(pl)), (key("pieces"), V::S(h))] }
fn multi(files: Vec<(u64, Vec<V>)>, nm: V, pl: u64, h: Vec<u8>) -> Vec<(Vec<u8>, V)> {
    let l = files.into_iter().map(|(n, p)| V::D(vec![(key("length"), V::I(n)), (key("path"), V::L(p))])).collect();
    vec![(key("files"), V::L(l)), (key("name"), nm), (key("piece length"), V::I(pl)), (key("pieces"), V::S(h))]
}
fn s(t: &str) -> V { V::S(t.as_bytes().to_vec()) }
fn store(i: &Info) -> bool { i.save(AT).is_ok() }
fn same(a: &Info, b: &Info) {
    check(a == b, "the info loaded is not the one stored");
    check(a.encode() == b.encode() && a.compute_info_hash() == b.compute_info_hash(), "the info loaded has another info-hash");
}
/// whatever is accepted from a file can be used
fn usable(i: &Info) {
    let t = i.get_total_length() as u64;
    let pl = i.get_piece_length() as u64;
    check(pl > 0, "piece length zero is accepted from a file");
    let f = match i.get_files() { Ok(f) => f, Err(_) => fail("info without files is accepted from a file") };
    let mut sum = 0u64;
    for x in &f { sum = match sum.checked_add(x.get_length() as u64) { Some(s) => s, None => fail("overflowing lengths are accepted from a file") }; let p = x.get_path(); check(!p.is_empty() && p.iter().all(|c| !c.is_empty() && c != "." && c != ".." && !c.bytes().any(|c| c == b'/' || c == 0)), "unsafe path is accepted from a file") }
    check(sum == t, "total length is not that of the files");
    let n = (t / pl + if t % pl > 0 { 1 } else { 0 }) as usize;
    if n > 0 { let _ = i.get_piece(n - 1); let _ = i.verify_piece(b"x", n - 1); }
    let _ = i.encode();
    let _ = i.compute_info_hash();
}
fn kinds(k: usize) -> Info {
    match k {
        0 => info(single(25, s("n"), 20, vec![7; 40])),
        1 => info(single(20, s("\u{e9}\"x\n"), 20, (0..20).collect())),
        2 => info(multi(vec![(3, vec![s("a")]), (17, vec![s("b"), s("c")])], s("d"), 20, vec![200; 20])),
        _ => info(multi(vec![(9, vec![s("\u{1F600}")])], s("d"), 16384, vec![1; 20])),
    }
}
pub fn run() {
    env::files_on();
    env::mkdir_p("downloads");
    match param("mode", 0) {
        // stored and loaded, over whatever was stored before
        0 => {
            if bool("stored before") { env::put(AT, &[b'x'; 700]) }
            env::fs().short = param("short", 0) as usize;
            let i = match if param("names", 0) == 1 { 1 + choose("kind", 2) } else { [0, 3][choose("kind", 2)] } {
                0 => { let mut h = vec![7; 20]; if bool("hash or length") { h[[0, 7, 19][choose("at", 3)]] = u8("hash"); info(single(5, s("n"), 100, h)) } else { info(single(range("length", 1, 99), s("n"), 100, h)) } }
                1 => info(single(20, name(param("chars", 2) as usize), 77, vec![9; 20])),
                2 => info(multi(vec![(3, vec![s("a"), name(1)]), (9, vec![s("b")])], s("d"), 30, vec![200; 20])),
                _ => { let l = [1u64, 16384, 16385, 1 << 32, 0xffff_ffff][choose("length", 5)]; let pl = [l, 0xffff_ffff][choose("piece length", 2)]; assume(pl <= 0xffff_ffff && l <= pl * 2); let n = (l + pl - 1) / pl; info(single(l, s("n"), pl, vec![255; 20 * n as usize])) }
            };
            check(store(&i), "info cannot be stored");
            env::fs().short = 0;
            match Info::from_file(AT) { Ok(j) => same(&i, &j), Err(_) => fail("stored info is refused") }
            reach("reloaded");
        }
        // much of it: hashes, files, a long name
        5 => {
            let i = match choose("kind", 3) {
                0 => { let n = param("hashes", 4000) as usize; let mut h = vec![201; 20 * n]; let k = [0, n * 10, 20 * n - 1][choose("at", 3)]; h[k] = range("hash", 96, 103) as u8; info(single(n as u64, s("n"), 1, h)) }
                1 => { let mut f: Vec<(u64, Vec<V>)> = (0..param("files", 200)).map(|i| (i % 7, vec![s("folder"), s("a file")])).collect(); let n: u64 = f.iter().map(|f| f.0).sum::<u64>() - f[150].0; f[150].0 = range("length", 1, 9); info(multi(f, s("d"), n + 9, vec![200; 20])) }
                _ => { let mut n = vec![b'n'; 240]; n.push(range("char", 1, 127) as u8); assume(n[240] != b'/' && n[240] != b'\\'); info(single(20, V::S(n), 77, vec![9; 20])) }
            };
            check(store(&i), "info cannot be stored");
            match Info::from_file(AT) { Ok(j) => same(&i, &j), Err(_) => fail("stored info is refused") }
            reach("reloaded");
        }
        // cut short anywhere, or missing
        1 => {
            let i = kinds(choose("kind", 4));
            if bool("missing") {
                match choose("how", 3) { 0 => {} 1 => env::mkdir_p(AT), _ => env::fs().faults = 1 }
                check(Info::from_file(AT).is_err(), "missing info is loaded");
                reach("missing");
                return;
            }
            store(&i);
            let n = env::lookup(AT).map(|n| n.size).unwrap_or(0) as usize;
            let cut = choose("cut", n);
            let b = env::contents(AT).unwrap_or_default();
            env::put(AT, &b[..cut]);
            check(Info::from_file(AT).is_err(), "info cut short is loaded");
            reach("cut");
        }
        // any byte replaced
        2 => {
            let i = kinds(choose("kind", param("kinds", 3) as usize));
            store(&i);
            let mut b = env::contents(AT).unwrap_or_default();
            // of the list of hash bytes, only the first and last few are replaced
            let mut p = 0;
            while p < b.len() && &b[p..(p + 10).min(b.len())] != b"\"pieces\":[" { p += 1 }
            let k = choose("at", b.len());
            if k > p + 9 + param("part", 5) as usize && k + 5 < b.len() { return; }
            b[k] = u8("byte");
            env::put(AT, &b);
            match Info::from_file(AT) { Ok(j) => { usable(&j); reach("accepted") } Err(_) => reach("refused") }
        }
        // well-formed files that hold other values
        3 => {
            let files = ["null", "[]", "[{\"path\":[\"a\"],\"length\":L}]", "[{\"path\":[],\"length\":L}]", "[{\"path\":[\"..\"],\"length\":L}]", "[{\"path\":[\"a\"],\"length\":L},{\"path\":[\"b\"],\"length\":18446744073709551615}]", "3", ""][choose("files", 8)];
            let mut t = String::from("{");
            if !files.is_empty() { t.push_str("\"files\":"); t.push_str(files); t.push(','); }
            t.push_str(["\"length\":null,", "\"length\":L,", "", "\"length\":-1,", "\"length\":1.5,", "\"length\":18446744073709551615,"][choose("length", 6)]);
            t.push_str(["\"name\":\"n\",", "\"name\":\"../n\",", "\"name\":\"\\u0000\",", "\"name\":3,", "\"name\":\"\\ud800\","][choose("name", 5)]);
            t.push_str(["\"piece_length\":0,", "\"piece_length\":20,", "\"piece_length\":18446744073709551615,", ""][choose("piece length", 4)]);
            t.push_str("\"pieces\":[");
            let n = [0usize, 1, 19, 20, 21, 40][choose("pieces", 6)];
            for i in 0..n { if i > 0 { t.push(',') } t.push('7') }
            t.push_str("]}");
            // L: one arbitrary digit
            let mut b = t.into_bytes();
            let d = u8("digit");
            assume(d >= b'0' && d <= b'9');
            for c in b.iter_mut() { if *c == b'L' { *c = d } }
            env::put(AT, &b);
            match Info::from_file(AT) { Ok(j) => { usable(&j); reach("accepted") } Err(_) => reach("refused") }
        }
        // files that cannot be written, or not to the end
        _ => {
            let i = kinds(choose("kind", 4));
            if bool("no folder") { env::FsKeep::drop_dir("downloads") }
            env::fs().faults = 1;
            let r = store(&i);
            let failed = env::fs().failed > 0;
            env::fs().faults = 0;
            check(failed || r || env::lookup("downloads").is_none(), "info cannot be stored");
            match Info::from_file(AT) { Ok(j) => { same(&i, &j); reach("stored") } Err(_) => { check(!r, "stored info is refused"); reach("not stored") } }
        }
    }
}
