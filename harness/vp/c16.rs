//! C16: downloads never leave the download directory.
use super::*;
use super::bref::{self, V};
use super::env;
use crate::torrent::info::Info;
use crate::torrent::writer::write;
fn key(k: &str) -> Vec<u8> { k.as_bytes().to_vec() }
fn arb(n: usize) -> Vec<u8> { bytes("byte", n) }
/// names that some layer may take for others
const ODD: &[&[u8]] = &[b"%2e%2e", b"%2e%2e%2fx", b"..%2fx", b"%2F..%2Fx", b"%2fetc%2fx", b"..%5cx", b"..\\x", b"\\etc\\x", b"~", b"~/x", b"$HOME", b"%252e%252e", b"..;/x", b".. ", b" ..", b"...", b"..\0", b"a\0b", b"\xe2\x80\xa6", b"\xef\xbc\x8e\xef\xbc\x8e", b"\xef\xbc\x8e\xef\xbc\x8e/x", b"..\xe2\x88\x95x", b"\xc2\xad..", b"..\xc2\xad", b"\xe2\x80\xae..", b"+..", b"..+", b"&#46;&#46;", b"\\u002e\\u002e", b"file:///etc/x", b"C:\\x", b"..\n", b"\t.."];
fn comp(k: usize) -> Vec<u8> {
    match choose("component", 11) {
        0 => b"a".to_vec(), 1 => b"..".to_vec(), 2 => b".".to_vec(), 3 => vec![], 4 => b"/etc".to_vec(), 5 => b"a/../../other/x".to_vec(), 6 => b"../x".to_vec(), 7 => b"a/b".to_vec(), 8 => b"x/".to_vec(), 9 => bref::text("char", 1).into_bytes(),
        _ => { let n = choose("len", k + 1); arb(n) }
    }
}
fn confined() {
    for t in env::fs().touched.iter() { check(t.len() > 2 && t[0] == b"home" && t[1] == b"work", "something outside of the working directory is created or modified") }
}
pub fn run() {
    env::files_on();
    if bool("exists") { env::mkdir_p("a") }
    let mut d: Vec<(Vec<u8>, V)> = vec![];
    let bytes_ = param("bytes", 2) as usize;
    if param("mode", 0) == 2 {
        let w = ODD[choose("odd", ODD.len())].to_vec();
        let tail = [&b""[..], b"/x", b"/../x", b"/.."][choose("tail", 4)];
        if bool("name") { d.push((key("length"), V::I(4))); let mut n = if bool("first") { vec![] } else { b"a/".to_vec() }; n.extend_from_slice(&w); n.extend_from_slice(tail); d.push((key("name"), V::S(n))) }
        else {
            let mut p = vec![V::S(w)];
            if bool("twice") { let e = p[0].clone(); p.push(e) }
            if bool("inner") { p.insert(0, V::S(b"a".to_vec())) }
            if !tail.is_empty() { p.push(V::S(tail[1..].to_vec())) }
            d.push((key("files"), V::L(vec![V::D(vec![(key("length"), V::I(4)), (key("path"), V::L(p))])])));
            d.push((key("name"), V::S(b"dir".to_vec())));
        }
    } else if param("mode", 0) == 0 {
        // a single file
        d.push((key("length"), V::I(4)));
        let n = choose("pre", 9);
        let mut name: Vec<u8> = [&b""[..], b"/", b"../", b"..", b"a/../", b"a", b"/home/other/", b"./", b"\xc3\xa9/"][n].to_vec();
        name.extend_from_slice(&arb(choose("len", param("bytes", 2) as usize + 1)));
        if bool("more") { name.extend_from_slice([&b"/x"[..], b"/..", b"/../../x", b"x"][choose("post", 4)]) }
        d.push((key("name"), V::S(name)));
    } else {
        let nf = 1 + choose("files", 2);
        let odd = choose("which", nf);
        let mut l = vec![];
        for i in 0..nf {
            let path = if i == odd { let nc = choose("components", param("comps", 2) as usize + 1); (0..nc).map(|j| V::S(comp(if j + 1 == nc { bytes_ } else { 1 }))).collect() } else { vec![V::S(b"b".to_vec())] };
            l.push(V::D(vec![(key("length"), V::I(4 / nf as u64)), (key("path"), V::L(path))]));
        }
        d.push((key("files"), V::L(l)));
        d.push((key("name"), V::S([&b"dir"[..], b"..", b"/home/other", b""][choose("name", 4)].to_vec())));
    }
    d.push((key("piece length"), V::I(4)));
    d.push((key("pieces"), V::S(vec![7; 20])));
    let i = match Info::from_bytes(bref::enc(&V::D(d))) { Ok(i) => i, Err(_) => { reach("refused"); return } };
    if let Ok(files) = i.get_files() {
        let r = write(vec![1, 2, 3, 4], 0, files, i.get_piece_length());
        confined();
        reach(if r.is_ok() { "written" } else { "failed" });
    }
}
