//! C19: the UDP tracker exchange follows the protocol for any reply.
use super::*;
use tokio::model::{self, Recv, Udp};
use crate::tracker::get_peers_by_tracker;
use crate::tracker::peer_endpoint::PeerEndpoint;
use ::std::io;
use ::std::time::Duration;
use url::Url;
pub struct St { hash: Vec<u8>, to: String, txn: Option<Vec<u8>>, conn: Option<Vec<u8>>, announced: usize, greeted: usize, recvs: usize, odd: usize, sent_errors: usize, want: Option<Vec<u8>>, first: bool, wait: Duration, faulty: bool, endless: bool, size: usize }
static ST: Global<St> = Global::new();
fn st() -> &'static mut St { ST.get() }
struct Net;
fn fault(what: &str) -> bool { if st().sent_errors > 0 && bool(what) { st().sent_errors -= 1; st().faulty = true; true } else { false } }
fn bad() -> io::Error { io::Error::from(io::ErrorKind::ConnectionRefused) }
impl Udp for Net {
    fn bind(&mut self) -> io::Result<()> { if fault("bind fails") { Err(bad()) } else { Ok(()) } }
    fn connect(&mut self, to: &str) -> io::Result<()> { check(to == st().to, "the packets go to another address than the tracker's"); if fault("connect fails") { Err(bad()) } else { Ok(()) } }
    fn send(&mut self, b: &[u8], to: Option<&str>) -> io::Result<usize> {
        if let Some(t) = to { check(t == st().to, "a packet goes to another address than the tracker's") }
        if fault("send fails") { return Err(bad()); }
        if b.len() == 16 {
            check(&b[..8] == &[0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80] && &b[8..12] == &[0; 4], "a malformed connect request");
            st().txn = Some(b[12..16].to_vec());
            st().greeted += 1;
            st().conn = None;
        } else {
            check(b.len() == 98, "a packet that is neither a connect request nor an announce request of 98 bytes");
            let c = match &st().conn { Some(c) => c.clone(), None => fail("an announce before the tracker gave a connection id") };
            check(&b[..8] == &c[..], "the announce carries another connection id than the tracker gave");
            check(&b[8..12] == &[0, 0, 0, 1], "the announce has a wrong action");
            check(&b[16..36] == &st().hash[..], "the announce carries another info-hash");
            for x in &b[36..56] { check(*x > 0x20 && *x < 0x7f, "the announce carries no peer id of 20 characters") }
            check(&b[80..83] == &[0; 3] && b[83] < 4, "the announce has an unknown event");
            check(&b[92..96] != &[0; 4], "the announce asks for no peers");
            check(b[96] != 0 || b[97] != 0, "the announce has no port");
            st().txn = Some(b[12..16].to_vec());
            st().announced += 1;
            st().first = true;
        }
        Ok(b.len())
    }
    fn recv(&mut self) -> Recv {
        let s = st();
        s.recvs += 1;
        check(s.recvs < 200, "the exchange does not come to an end");
        let from = "10.0.0.9:6969".parse().unwrap();
        let txn = match &s.txn { Some(t) => t.clone(), None => vec![0; 4] };
        if s.greeted == 0 || s.sent_errors > 0 && s.txn.is_none() { return Recv::Never; }
        let k = if s.endless { 3 } else if s.odd > 0 { choose("packet", 6) } else { 0 };
        if k > 0 && !s.endless { s.odd -= 1 }
        match k {
            // what was asked for
            0 => {
                if s.announced > 0 {
                    let n = s.size;
                    let mut b = vec![0, 0, 0, 1];
                    b.extend_from_slice(&txn);
                    b.extend_from_slice(&[0, 0, 7, 8, 0, 0, 0, 1, 0, 0, 0, 2]);
                    let p = peers(n);
                    b.extend_from_slice(&p);
                    s.want = Some(p);
                    Recv::Data(b, from)
                } else {
                    let mut b = vec![0; 4];
                    b.extend_from_slice(&txn);
                    let c = bytes("connection id", 8);
                    b.extend_from_slice(&c);
                    s.conn = Some(c);
                    Recv::Data(b, from)
                }
            }
            1 => { s.faulty = true; Recv::Never }
            2 => { s.faulty = true; Recv::Error }
            // any head, any size
            3 => {
                s.faulty = true;
                let n = [0, 3, 8, 15, 16, 17, 19, 20, 26][if s.endless { 4 } else { choose("size", 9) }];
                let mut b = bytes("head", 8);
                b.extend_from_slice(&[9; 18]);
                b.truncate(n);
                if n >= 16 && s.announced == 0 && b[..4] == [0; 4] && b[4..8] == txn[..] { s.conn = Some(b[8..16].to_vec()); s.faulty = n != 16 }
                if n >= 20 && s.announced > 0 && b[..4] == [0, 0, 0, 1] && b[4..8] == txn[..] { s.want = Some(b[20..].to_vec()); s.faulty = n < 26 }
                Recv::Data(b, from)
            }
            // the announce reply cut anywhere, or with more than whole peers
            4 => {
                if s.announced == 0 { return Recv::Never; }
                let n = choose("cut", 34);
                let mut b = vec![0, 0, 0, 1];
                b.extend_from_slice(&txn);
                b.extend_from_slice(&[0, 0, 7, 8, 0, 0, 0, 1, 0, 0, 0, 2]);
                b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
                b.truncate(n);
                s.want = if n >= 20 { Some(b[20..].to_vec()) } else { None };
                s.faulty = n < 26;
                Recv::Data(b, from)
            }
            // an error message of the tracker
            _ => {
                s.faulty = true;
                let mut b = vec![0, 0, 0, 3];
                b.extend_from_slice(&txn);
                b.extend_from_slice(b"not today, please come back later");
                Recv::Data(b, from)
            }
        }
    }
    fn timeout(&mut self, d: Duration) { st().wait += d; check(st().wait < Duration::from_secs(3600), "more than an hour of waiting for a silent tracker") }
}
/// n peers, two of them with arbitrary bytes
fn peers(n: usize) -> Vec<u8> {
    let mut b = vec![];
    for i in 0..n { b.extend_from_slice(&[10, 1, (i / 250) as u8, (i % 250) as u8 + 1, 0x1a, 0xe1]) }
    if n > 0 { let (i, v) = (choose("at", 6), u8("peer")); b[i] = v; b[6 * n - 1] = u8("port") }
    b
}
fn start(to: &str, hash: Vec<u8>) {
    ST.set(St { hash, to: to.to_owned(), txn: None, conn: None, announced: 0, greeted: 0, recvs: 0, odd: param("odd", 2) as usize, sent_errors: param("faults", 0) as usize, want: None, first: false, wait: Duration::ZERO, faulty: false, endless: false, size: 2 });
    model::NET.set(Box::new(Net));
}
fn call(url: &Url) -> Option<Vec<PeerEndpoint>> {
    let h = st().hash.clone();
    match model::block_on(get_peers_by_tracker(url, &h)) { None => fail("waits for ever for a packet"), Some(r) => r.ok() }
}
fn judge(got: Option<Vec<PeerEndpoint>>) {
    match got {
        Some(p) => {
            let w = match &st().want { Some(w) => w.clone(), None => fail("peers without a reply to the announce") };
            check(st().announced > 0, "peers without an announce");
            check(p.len() == w.len() / 6, "not as many peers as in the reply");
            for (i, e) in p.iter().enumerate() {
                let b = &w[6 * i..6 * i + 6];
                check(e.port() == b[4] as u16 * 256 + b[5] as u16, "a peer has a wrong port");
                check(e.endpoint() == format!("{}.{}.{}.{}:{}", b[0], b[1], b[2], b[3], e.port()), "a peer has a wrong address");
            }
            if p.len() == 1 { reach("one peer") }
            reach("peers")
        }
        None => { check(st().faulty || st().want.as_ref().map(|w| w.len() < 6).unwrap_or(true), "a well-formed exchange ends with an error"); check(st().faulty || st().greeted > 0 && st().want.is_some(), "a tracker that answers is given up"); reach("error") }
    }
}
const URL: &str = "udp://10.0.0.9:6969/announce";
fn hash() -> Vec<u8> { bytes("hash", 20) }
pub fn run() {
    match param("mode", 0) {
        // odd packets in place of the replies
        0 => { start("10.0.0.9:6969", hash()); judge(call(&Url::parse(URL).unwrap())) }
        // any number of peers
        1 => {
            start("10.0.0.9:6969", hash());
            let n = [1, 0, 2, 3, 50, 200, 663, 664, 1000, 10000][choose("peers", param("sizes", 10) as usize)];
            st().odd = 0;
            st().size = n;
            let got = call(&Url::parse(URL).unwrap());
            check(got.is_some() || n == 0, "a well-formed exchange ends with an error");
            judge(got)
        }
        // a tracker that never says anything of use
        2 => { start("10.0.0.9:6969", hash()); st().endless = true; let t = st().txn.clone(); judge(call(&Url::parse(URL).unwrap())) }
        // two announces, for the same torrent or two of them
        4 => {
            let h: Vec<u8> = (1..21).collect();
            start("10.0.0.9:6969", h.clone());
            st().size = 1;
            judge(call(&Url::parse(URL).unwrap()));
            let other = bool("another torrent");
            let mut g = h;
            if other { let k = [0, 10, 19][choose("at", 3)]; let b = u8("byte"); assume(b != g[k]); g[k] = b }
            let (u, to) = [(URL, "10.0.0.9:6969"), ("udp://10.0.0.8:6969/announce", "10.0.0.8:6969")][choose("tracker", 2)];
            start(to, g);
            st().odd = 0;
            judge(call(&Url::parse(u).unwrap()));
            check(st().announced > 0 || st().faulty, "the second announce is left out");
            reach("twice");
        }
        // addresses
        _ => {
            let (u, to) = [("udp://tracker.example.org:80", "tracker.example.org:80"), ("udp://tracker.example.org:1/announce?a=b", "tracker.example.org:1"), ("udp://[::1]:6969/a", "[::1]:6969"), ("udp://10.0.0.9", ""), ("udp:a", ""), ("udp:///a", ""), ("wss://a:1/", ""), ("https://a/announce", ""), ("ftp://a:1/", "")][choose("url", 9)];
            start(to, hash());
            st().odd = 0;
            match Url::parse(u) { Ok(u) => { let got = call(&u); if to.is_empty() { check(got.is_none() && st().greeted == 0, "peers of a tracker that has no address"); reach("no address") } else { check(got.is_some(), "a tracker is not asked"); judge(got) } } Err(_) => {} }
        }
    }
}
