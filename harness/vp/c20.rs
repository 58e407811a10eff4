//! C20: the HTTP tracker request and reply are handled exactly.
use super::*;
use super::bref::{self, P, V};
use crate::tracker::get_peers_by_tracker;
use crate::tracker::peer_endpoint::PeerEndpoint;
use tokio::model;
use url::Url;
pub struct St { hash: Vec<u8>, base: String, query: Option<String>, status: u16, body: Vec<u8>, cut: Option<usize>, broken: bool, asked: usize }
static ST: Global<St> = Global::new();
fn st() -> &'static mut St { ST.get() }
fn digit(c: u8) -> u8 { if c >= b'0' && c <= b'9' { c - b'0' } else if c >= b'A' && c <= b'F' { c - b'A' + 10 } else if c >= b'a' && c <= b'f' { c - b'a' + 10 } else { fail("a broken escape in the request") } }
fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'%' { check(i + 2 < b.len(), "a broken escape in the request"); o.push(digit(b[i + 1]) * 16 + digit(b[i + 2])); i += 3; continue }
        check(c >= b'0' && c <= b'9' || c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c == b'-' || c == b'_' || c == b'.' || c == b'~', "a byte that needs escaping is not escaped");
        o.push(c);
        i += 1;
    }
    o
}
fn server(seen: ureq::Seen) -> Option<ureq::Reply> {
    let s = st();
    s.asked += 1;
    check(seen.method == "GET", "the tracker is not asked with GET");
    let u = seen.url.as_bytes();
    let b = s.base.as_bytes();
    check(u.len() > b.len() && &u[..b.len()] == b, "the request goes to another address than the tracker's");
    check(u[b.len()] == b'?', "the request has no query, or another path");
    let (mut hash, mut id, mut old) = (None, None, vec![]);
    for p in u[b.len() + 1..].split(|c| *c == b'&') {
        if p.len() >= 10 && &p[..10] == b"info_hash=" { check(hash.is_none(), "two info-hashes in the request"); hash = Some(unescape(&p[10..])) }
        else if p.len() >= 8 && &p[..8] == b"peer_id=" { check(id.is_none(), "two peer ids in the request"); id = Some(unescape(&p[8..])) }
        else { for c in p { check(*c > 0x20 && *c < 0x7f && *c != b'#' && *c != b'"' && *c != b'<' && *c != b'>', "a broken query") } if !old.is_empty() { old.push(b'&') } old.extend_from_slice(p) }
    }
    match hash { Some(h) => check(h == s.hash, "the request carries another info-hash"), None => fail("the request carries no info-hash") }
    match id { Some(i) => check(i.len() == 20, "the peer id is not 20 bytes"), None => fail("the request carries no peer id") }
    if let Some(q) = &s.query { check(old.len() >= q.len() && old[..q.len()] == *q.as_bytes(), "the query of the tracker address is lost") }
    if s.broken { return None; }
    Some(ureq::Reply { status: s.status, body: s.body.clone(), fail_after: s.cut })
}
fn start(base: &str, query: Option<&str>, hash: Vec<u8>) {
    ureq::SERVER.set(Box::new(server));
    ST.set(St { hash, base: base.to_owned(), query: query.map(|q| q.to_owned()), status: 200, body: vec![], cut: None, broken: false, asked: 0 });
}
fn call(url: &str) -> Option<Vec<PeerEndpoint>> {
    let u = match Url::parse(url) { Ok(u) => u, Err(_) => fail("model: url") };
    let h = st().hash.clone();
    match model::block_on(get_peers_by_tracker(&u, &h)) { None => fail("waits for ever"), Some(r) => r.ok() }
}
fn same(p: &[PeerEndpoint], w: &[u8]) {
    check(p.len() == w.len() / 6, "not as many peers as in the reply");
    for (i, e) in p.iter().enumerate() {
        let b = &w[6 * i..6 * i + 6];
        check(e.port() == b[4] as u16 * 256 + b[5] as u16, "a peer has a wrong port");
        check(e.endpoint() == format!("{}.{}.{}.{}:{}", b[0], b[1], b[2], b[3], e.port()), "a peer has a wrong address");
    }
}
fn peers_of(v: &V) -> Option<Vec<u8>> { match v { V::D(l) => { for (k, v) in l { if &k[..] == b"peers" { return match v { V::S(s) => Some(s.clone()), _ => None } } } None } _ => None } }
fn judge(got: Option<Vec<PeerEndpoint>>) {
    let s = st();
    check(s.asked > 0, "the tracker is not asked");
    let whole = s.status < 300 && !s.broken && s.cut.is_none();
    let (want, must) = match bref::parse(&s.body) {
        P::Ok(v, n) => (peers_of(&v), n == s.body.len()),
        P::Lenient(Some((v, _))) => (peers_of(&v), false),
        P::Lenient(None) => return,
        _ => (None, false),
    };
    match got {
        Some(p) => { check(s.status < 400 && !s.broken, "peers without an answer"); match want { Some(w) => same(&p, &w), None => fail("peers out of a reply that has none") } reach("peers") }
        None => { check(!(whole && must && want.is_some()), "a proper reply is refused"); reach("error") }
    }
}
const A: &str = "http://10.0.0.9:6969/announce";
const HASH: [u8; 20] = [0, 0x25, 0xff, b'a', b'Z', b'0', b'-', b'_', b'.', b'~', b' ', b'+', b'&', b'=', b'/', b'?', b'#', 0x7f, 0x80, b'%'];
pub fn run() {
    match param("mode", 0) {
        // info-hashes and addresses
        0 => {
            let (u, b, q) = [(A, A, None), ("http://10.0.0.9:6969/announce?passkey=a%20b&x", A, Some("passkey=a%20b&x")), ("http://t.example.org", "http://t.example.org/", None), ("http://t.example.org/a.php?k=v#frag", "http://t.example.org/a.php", Some("k=v"))][choose("address", 4)];
            let mut h = HASH.to_vec();
            let k = param("k", 2) as usize;
            let at = choose("at", 21 - k);
            for i in 0..k { h[at + i] = u8("hash") }
            start(b, q, h);
            st().body = b"d8:intervali1800e5:peers6:\x0a\x00\x00\x01\x1a\xe1e".to_vec();
            judge(call(u));
            reach("request")
        }
        // peer strings of every length
        1 => {
            start(A, None, HASH.to_vec());
            let n = choose("bytes", param("bytes", 26) as usize);
            let mut p: Vec<u8> = (0..n).map(|i| (i * 37 % 256) as u8).collect();
            if n > 0 { let k = choose("at", n); p[k] = u8("byte"); if k + 1 < n && param("two", 0) == 1 { p[k + 1] = u8("byte") } }
            let mut b = if bool("interval") { b"d8:intervali1800e".to_vec() } else { b"d".to_vec() };
            b.extend_from_slice(b"5:peers");
            bref::put_str(&p, &mut b);
            if bool("more") { b.extend_from_slice(b"6:peers60:") }
            b.push(b'e');
            st().body = b;
            judge(call(A))
        }
        // two announces, for two torrents or the same one, to two trackers or the same one
        4 => {
            start(A, None, HASH.to_vec());
            st().body = b"d8:intervali1800e5:peers6:\x0a\x00\x00\x01\x1a\xe1e".to_vec();
            st().status = [200, 503][choose("status", 2)];
            judge(call(A));
            let mut h = HASH.to_vec();
            if bool("another torrent") { let k = [0, 10, 19][choose("at", 3)]; h[k] = u8("hash") }
            let (u, b) = [(A, A), ("http://t.example.org/a", "http://t.example.org/a")][choose("tracker", 2)];
            start(b, None, h);
            let p = [&b"\x0a\x00\x00\x01\x1a\xe1"[..], b"\x0a\x00\x00\x02\x1a\xe1\x0a\x00\x00\x01\x1a\xe1", b""][choose("peers", 3)];
            let mut r = b"d5:peers".to_vec();
            bref::put_str(p, &mut r);
            r.push(b'e');
            st().body = r;
            judge(call(u));
            reach("twice")
        }
        // any short body, one byte of a reply changed, cut
        2 => {
            start(A, None, HASH.to_vec());
            let r = b"d8:completei2e8:intervali1800e5:peers12:\x0a\x00\x00\x01\x1a\xe1\xc0\xa8\x01\xff\x00\x50e".to_vec();
            st().body = match choose("body", 4) {
                0 => { let n = choose("len", param("len", 4) as usize + 1); bytes("byte", n) }
                1 => { let mut r = r; let k = choose("at", r.len()); r[k] = u8("byte"); r }
                2 => { let mut r = r; let n = choose("len", r.len()); r.truncate(n); r }
                _ => [&b"d14:failure reason9:not todaye"[..], b"d5:peersld2:ip9:127.0.0.14:porti6881eeee", b"d5:peersi5ee", b"d5:peersde", b"d6:peers66:aaaaaae", b"le", b"i5e", b"<html></html>", b"d5:peers99999999999999999999:e", b"d5:peers18446744073709551615:e", b"d8:intervali99999999999999999999e5:peers0:e"][choose("odd", 11)].to_vec(),
            };
            judge(call(A))
        }
        // errors, and many peers
        _ => {
            start(A, None, HASH.to_vec());
            let n = [0, 1, 50, 200, 1000, 20000][choose("peers", param("sizes", 5) as usize)];
            let mut b = b"d5:peers".to_vec();
            let p: Vec<u8> = (0..6 * n).map(|i| (i * 7 / 6 % 256) as u8).collect();
            bref::put_str(&p, &mut b);
            b.push(b'e');
            match choose("error", 4) {
                0 => {}
                1 => st().status = [204, 301, 400, 404, 500, 503][choose("status", 6)],
                2 => st().broken = true,
                _ => { let k = choose("cut", 12).min(b.len()); st().cut = Some(if bool("from the end") { b.len() - k } else { k }) }
            }
            st().body = b;
            judge(call(A))
        }
    }
}
