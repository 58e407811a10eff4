//! C22: any magnet submitted over HTTP gets a proper answer.
use super::*;
#[path = "c06.rs"] mod magnets;
use magnets::{link, want, B32, HEX};
use crate::actors::messages::TorrentRegistered;
use crate::actors::torrent::TorrentActor;
use crate::actors::tracker::TrackerActor;
use crate::actors::trackers_interface::TrackersInterfaceActor;
use crate::AppState;
use actix::prelude::*;
use actix_web::{web, Responder};
use tokio::model;
static DATA: Global<web::Data<AppState>> = Global::new();
static SENT: Global<Vec<(Vec<u8>, Addr<TorrentActor>)>> = Global::new();
fn submit(text: String) {
    let (w, may) = want(text.as_bytes());
    let before = actix::mailboxes::<TorrentActor>().len();
    let registered = registrations();
    let status = match model::block_on(crate::add_magnet(DATA.get().clone(), text)) { None => fail("the request is never answered"), Some(r) => Responder::status(r) };
    let after = actix::mailboxes::<TorrentActor>();
    if status < 400 {
        check(status >= 200 && status < 300, "a valid magnet is answered with neither success nor an error");
        let w = match w { Some(w) => w, None => fail("something else than a magnet link is taken") };
        check(after.len() == before + 1, "not exactly one torrent is started");
        let t = &after[before];
        check(t.0.workers.borrow().len() == 1 && t.0.workers.borrow()[0].info_hash == w, "the torrent has another info-hash than the magnet");
        check(t.pending() == 0, "the torrent is sent something else");
        check(registrations() == registered + 1, "the torrent is not registered exactly once");
        SENT.get().push((w, t.clone()));
        reach("started")
    } else {
        check(status < 500, "the service blames itself for a bad magnet");
        check(w.is_none() || may, "a valid magnet is refused");
        check(after.len() == before, "a torrent is started for a refused magnet");
        check(registrations() == registered, "something is registered for a refused magnet");
        reach("refused")
    }
}
fn registrations() -> usize { actix::mailboxes::<TrackersInterfaceActor>().iter().map(|a| a.pending()).sum() }
/// the registrations name the torrents in order
fn judge() {
    let mut k = 0;
    for a in actix::mailboxes::<TrackersInterfaceActor>() {
        while a.pending() > 0 {
            let m = match a.take::<TorrentRegistered>(0) { Some(m) => m, None => fail("something else is sent to the trackers") };
            let (h, t) = &SENT.get()[k];
            check(m.info_hash == *h, "another info-hash is registered than that of the magnet");
            check(m.torrent_actor_addr == *t, "another torrent is registered than was started");
            k += 1;
        }
    }
    check(k == SENT.get().len(), "a torrent is not registered");
}
fn text(b: Vec<u8>) -> String { match String::from_utf8(b) { Ok(s) => s, Err(_) => stop() } }
pub fn run() {
    SENT.set(vec![]);
    let t = TrackersInterfaceActor::new().start();
    DATA.set(web::Data::new(AppState { trackers_interface: t }));
    match param("mode", 0) {
        // one request
        0 => {
            let h = HEX.to_vec();
            let tail = |b: Vec<u8>| -> Vec<u8> { let mut m = b; m.extend_from_slice([&b""[..], b"&", b"&dn=x&tr=udp%3A%2F%2Fa", b"a"][choose("tail", 4)]); m };
            let m = match choose("kind", 7) {
                // long parameters
                5 => { let mut h = h; h[[0, 39][choose("at", 2)]] = u8("digit"); let n = [200usize, 1000, 5000][choose("size", 3)]; let mut t = b"&dn=".to_vec(); for i in 0..n { t.extend_from_slice([&b"x"[..], b"%20", b"\xc3\xa9", b"&tr=udp%3A%2F%2Ft"][i % 4]) } link(&h, &t) }
                0 => { let n = choose("len", param("len", 3) as usize + 1); bytes("byte", n) }
                1 => { let mut h = h; let k = param("k", 2) as usize; let at = choose("at", 41 - k); for i in 0..k { h[at + i] = u8("digit") } tail(link(&h, b"")) }
                2 => { let mut h = B32.to_vec(); let k = param("k", 2) as usize; let at = choose("at", 33 - k); for i in 0..k { h[at + i] = u8("digit") } tail(link(&h, b"")) }
                3 => { let n = choose("cut", 61); let mut m = link(&h, b""); m.truncate(n); m }
                4 => { let mut m = link(&h, b""); let k = choose("at", 20); m[k] = u8("byte"); m }
                _ => [&b"http://example.org/"[..], b"magnet:?dn=x&xt=urn:btih:A6e449c2281E62edbf8cdb447413ca288cF0e568", b"magnet:?xt=urn:btih:", b"magnet:?xt=urn:btih:&dn=x", b"magnet:?xt=urn:btmh:A6e449c2281E62edbf8cdb447413ca288cF0e568", b"{\"magnet\": \"x\"}", b" magnet:?xt=urn:btih:A6e449c2281E62edbf8cdb447413ca288cF0e568", b"magnet:?xt=urn:btih:\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"][choose("odd", 8)].to_vec(),
            };
            submit(text(m))
        }
        // several requests, one after the other
        2 => {
            // the same magnet, twice, with another one in between or not: each starts a torrent of its own
            let n = param("many", 20);
            for i in 0..n { let mut h = HEX.to_vec(); if i == 2 { h[39] = u8("digit") } submit(text(link(&h, [&b""[..], b"&dn=x"][(i / 3 % 2) as usize]))) ; if i > 4 && bool("enough") { break } }
        }
        _ => {
            let many = bool("many");
            for i in 0..if many { 0 } else { param("requests", 3) } {
                let mut h = HEX.to_vec();
                h[5 + i as usize] = b'0' + i as u8;
                let m = match choose("request", 5) { 0 => { h[39] = u8("digit"); link(&h, b"") } 1 => { let mut h = B32.to_vec(); h[0] = b'A' + i as u8; h[31] = u8("digit"); link(&h, b"") } 2 => link(b"xyz", b""), 3 => vec![], _ => { h[7] = b'x'; link(&h, b"&dn=y") } };
                submit(text(m));
            }
            // many at once: none is lost
            let n = if many { param("many", 60) } else { 0 };
            for i in 0..n { let mut h = HEX.to_vec(); h[9] = b'0' + (i / 100) as u8; h[10] = b'0' + (i / 10 % 10) as u8; h[11] = b'0' + (i % 10) as u8; h[12] = b'f'; submit(text(link(&h, b""))) }
        }
    }
    judge()
}
