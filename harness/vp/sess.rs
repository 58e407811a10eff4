//! The remote end of a peer session: records and checks everything the client sends, and answers.
use super::*;
use super::env::{self, Conn, HOLD};
use ::std::vec::Vec;
use ::std::collections::HashMap;
use crate::bencode::metainfo::Metainfo;
use crate::torrent::info::Info;
pub fn be(b: &[u8]) -> u64 { let mut v = 0u64; for x in b { v = v * 256 + *x as u64 } v }
pub fn four(v: u32) -> [u8; 4] { [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8] }
pub fn msg(id: u8, payload: &[u8]) -> Vec<u8> { let mut b = four(payload.len() as u32 + 1).to_vec(); b.push(id); b.extend_from_slice(payload); b }
pub fn handshake(hash: &[u8]) -> Vec<u8> { let mut b = vec![19]; b.extend_from_slice(b"BitTorrent protocol"); b.extend_from_slice(&[0, 0, 0, 0, 0, 16, 0, 0]); b.extend_from_slice(hash); b.extend_from_slice(b"-XX0001-abcdefghijkl"); b }
/// extension handshake: id of ut_metadata (0: not offered), metadata size (None: not announced)
pub fn num(b: &mut Vec<u8>, mut v: u64) { let mut d = vec![]; loop { d.push(b'0' + (v % 10) as u8); v /= 10; if v == 0 { break } } d.reverse(); b.extend_from_slice(&d) }
pub fn ext(id: Option<u64>, size: Option<u64>) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend_from_slice(b"d1:md");
    if let Some(i) = id { p.extend_from_slice(b"11:ut_metadatai"); num(&mut p, i); p.push(b'e') }
    p.extend_from_slice(b"e");
    if let Some(s) = size { p.extend_from_slice(b"13:metadata_sizei"); num(&mut p, s); p.push(b'e') }
    p.push(b'e');
    msg(20, &p)
}
#[derive(Clone, PartialEq)]
pub enum Req { Block(u64, u64, u64), Meta(u8, u64) }
pub struct Sess {
    pub hash: Vec<u8>, pub parsed: usize, pub greeted: bool, pub reqs: Vec<Req>, pub said: usize, pub others: Vec<u8>,
    /// (what, number of bytes of the stream up to its end)
    pub marks: Vec<(Mark, usize)>,
    pub greet: fn(&mut Conn), pub answer: fn(&mut Conn, &Req), pub strict: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mark { Greeting, OtherGreeting, Choke, Unchoke, Size, NoSize }
static SESS: Global<Sess> = Global::new();
pub fn s() -> &'static mut Sess { SESS.get() }
fn no_answer(_c: &mut Conn, _r: &Req) {}
fn no_greet(_c: &mut Conn) {}
pub fn start(hash: &[u8]) {
    env::net_on();
    SESS.set(Sess { hash: hash.to_vec(), parsed: 0, greeted: false, reqs: vec![], said: 0, others: vec![], marks: vec![], greet: no_greet, answer: no_answer, strict: true });
    env::net().on_send = on_send;
    env::net().on_connect = on_connect;
}
fn on_connect(c: &mut Conn) -> env::Outcome { s().parsed = 0; s().greeted = false; s().said = 0; s().marks.clear(); env::Outcome::Accept }
/// the remote end sends something, there after `delay` receive calls
pub fn say(c: &mut Conn, b: &[u8], delay: u32, what: Option<Mark>) {
    s().said += b.len();
    c.pending.push(env::Seg { bytes: b.to_vec(), delay });
    if let Some(w) = what { let n = s().said; s().marks.push((w, n)) }
}
/// what the client has been told so far: (greeting for the hash, unchoked, metadata size)
pub fn told(c: &Conn) -> (bool, bool, bool) {
    let (mut g, mut u, mut z) = (false, false, false);
    for (m, n) in &s().marks {
        if *n > c.taken { break }
        match m { Mark::Greeting => g = true, Mark::OtherGreeting => g = false, Mark::Choke => u = false, Mark::Unchoke => u = true, Mark::Size => z = true, Mark::NoSize => z = false }
    }
    (g, u, z)
}
fn allowed(c: &Conn) {
    let (g, u, z) = told(c);
    check(g, "a request before the peer's handshake for the torrent");
    check(u, "a request to a peer that did not unchoke the client");
    check(z, "a request before the peer announced its metadata size");
}
fn on_send(c: &mut Conn) {
    loop {
        let t = c.tx.len() - s().parsed;
        let p = s().parsed;
        if !s().greeted {
            if t < 68 { return }
            let h = c.tx[p..p + 68].to_vec();
            check(h[0] == 19 && &h[1..20] == b"BitTorrent protocol", "the first message is no handshake");
            check(h[25] & 0x10 != 0, "the handshake does not advertise the extension protocol");
            check(&h[28..48] == &s().hash[..], "the handshake carries another info-hash");
            s().parsed += 68;
            s().greeted = true;
            (s().greet)(c);
            continue;
        }
        if t < 4 { return }
        let n = concretize(be(&c.tx[p..p + 4])) as usize;
        check(n < 1 << 17, "the client sends a message without end, or a second handshake");
        if t < 4 + n { return }
        s().parsed += 4 + n;
        if n == 0 { continue }
        let m = c.tx[p + 4..p + 4 + n].to_vec();
        match m[0] {
            6 => {
                check(n == 13, "a block request of wrong size");
                allowed(c);
                let r = Req::Block(be(&m[1..5]), be(&m[5..9]), be(&m[9..13]));
                s().reqs.push(r.clone());
                (s().answer)(c, &r);
            }
            20 => {
                check(n >= 2, "an extension message without id");
                if m[1] == 0 { s().others.push(20); continue }
                allowed(c);
                let d = &m[2..];
                // d8:msg_typei0e5:piecei<n>ee
                let pre = b"d8:msg_typei0e5:piecei";
                check(d.len() > pre.len() + 2 && &d[..pre.len()] == pre && &d[d.len() - 2..] == b"ee", "a malformed metadata request");
                let mut v = 0u64;
                for c in &d[pre.len()..d.len() - 2] { check(*c >= b'0' && *c <= b'9', "a malformed metadata request"); v = v * 10 + (*c - b'0') as u64 }
                let r = Req::Meta(m[1], v);
                s().reqs.push(r.clone());
                (s().answer)(c, &r);
            }
            i => { check(i < 10, "a message of unknown type"); s().others.push(i) }
        }
    }
}
/// a peer that is ready at once
pub fn ready(c: &mut Conn) {
    let h = s().hash.clone();
    say(c, &handshake(&h), 0, Some(Mark::Greeting));
    say(c, &msg(1, &[]), 0, Some(Mark::Unchoke));
    say(c, &ext(Some(2), Some(31235)), 0, Some(Mark::Size));
}
/// info of a torrent of one or two files; the hash of piece k is k mod 251, twenty times
pub fn info(pl: u64, total: u64, hashes: usize, files: bool) -> Info { info_from(pl, total, hashes, files, 0) }
/// the same with the hashes counted from `first`
pub fn info_from(pl: u64, total: u64, hashes: usize, files: bool, first: usize) -> Info {
    let mut d = HashMap::new();
    d.insert("name".to_owned(), Metainfo::String(b"n".to_vec()));
    d.insert("piece length".to_owned(), Metainfo::Integer(pl as usize));
    d.insert("pieces".to_owned(), Metainfo::String((0..20 * hashes).map(|i| ((first + i / 20) % 251) as u8).collect()));
    if files {
        let f = |n: u64, p: &str| Metainfo::Dictionary(HashMap::from([("length".to_owned(), Metainfo::Integer(n as usize)), ("path".to_owned(), Metainfo::List(vec![Metainfo::String(p.as_bytes().to_vec())]))]));
        let first = [0, 1, total / 2][choose("first file", 3)];
        d.insert("files".to_owned(), Metainfo::List(vec![f(first, "a"), f(total - first, "b")]));
    } else { d.insert("length".to_owned(), Metainfo::Integer(total as usize)); }
    match Info::from_metainfo(&Metainfo::Dictionary(d)) { Ok(i) => i, Err(_) => fail("usable metadata is refused") }
}
