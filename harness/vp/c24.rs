//! C24: reachable tracker peers reach the torrent exactly once.
use super::*;
use super::env::{self, Conn, Outcome};
use super::bref;
use crate::actors::messages::{PeerFound, TorrentRegistered};
use crate::actors::torrent::TorrentActor;
use crate::actors::tracker::TrackerActor;
use crate::actors::trackers_interface::TrackersInterfaceActor;
use crate::tracker::peer_endpoint::PeerEndpoint;
use actix::prelude::*;
use tokio::model::{self, Recv, Udp};
use ::std::io;
use url::Url;
/// the answer of a tracker to a torrent
#[derive(Clone, Copy, PartialEq)]
enum Answer { Peers, Nothing, Odd }
pub struct St { hash: Vec<u8>, answer: Answer, peers: Vec<u8>, announced: bool, txn: Vec<u8>, tried: Vec<([u8; 6], Outcome)>, asked: usize, all: bool }
static ST: Global<St> = Global::new();
fn st() -> &'static mut St { ST.get() }
struct Net;
impl Udp for Net {
    fn connect(&mut self, _to: &str) -> io::Result<()> { st().announced = false; st().asked += 1; Ok(()) }
    fn send(&mut self, b: &[u8], _to: Option<&str>) -> io::Result<usize> {
        if b.len() == 16 { st().txn = b[12..16].to_vec() } else { check(b.len() == 98, "a packet of unknown kind"); st().announced = true; st().txn = b[12..16].to_vec(); st().hash = b[16..36].to_vec() }
        Ok(b.len())
    }
    fn recv(&mut self) -> Recv {
        let s = st();
        let from = "10.0.0.9:6969".parse().unwrap();
        if s.answer == Answer::Nothing { return Recv::Never; }
        if s.answer == Answer::Odd && s.announced { return Recv::Data(vec![0, 0, 0, 3, 1, 2], from); }
        let mut b = if s.announced { vec![0, 0, 0, 1] } else { vec![0; 4] };
        b.extend_from_slice(&s.txn);
        if s.announced { b.extend_from_slice(&[0; 12]); b.extend_from_slice(&s.peers) } else { b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]) }
        Recv::Data(b, from)
    }
}
fn server(r: ureq::Seen) -> Option<ureq::Reply> {
    let s = st();
    s.asked += 1;
    if s.answer == Answer::Nothing { check(r.timeout.is_some(), "waits for ever for a tracker"); return None; }
    if s.answer == Answer::Odd { return Some(ureq::Reply { status: 200, body: b"d5:peers".to_vec(), fail_after: None }); }
    let mut b = b"d5:peers".to_vec();
    bref::put_str(&s.peers, &mut b);
    b.push(b'e');
    Some(ureq::Reply { status: 200, body: b, fail_after: None })
}
fn connect(c: &mut Conn) -> Outcome {
    let o = if st().all { Outcome::Accept } else { [Outcome::Accept, Outcome::Refuse, Outcome::Timeout, Outcome::Unreachable][choose("peer", param("outcomes", 3) as usize)] };
    st().tried.push((c.addr, o));
    o
}
fn start() {
    env::net_on();
    env::net().on_connect = connect;
    env::net().max_calls = 1_000_000;
    model::NET.set(Box::new(Net));
    ureq::SERVER.set(Box::new(server));
    ST.set(St { hash: vec![], answer: Answer::Peers, peers: vec![], announced: false, txn: vec![0; 4], tried: vec![], asked: 0, all: false });
    // a spawned future that never ends
    actix::STUCK.set(Box::new(|| fail("waits for ever for a tracker")));
}
/// what the torrent was told since, compared with the answer
fn judge(t: &Addr<TorrentActor>) {
    let s = st();
    let mut k = 0;
    if s.answer == Answer::Peers {
        for b in s.peers.chunks_exact(6) {
            let mut a = [0; 6];
            a.copy_from_slice(b);
            let (mut up, mut tries) = (false, 0);
            for (x, o) in &s.tried { if *x == a { tries += 1; up = *o == Outcome::Accept } }
            check(tries > 0, "a peer is not tried");
            if !up { reach("not reachable"); continue }
            let m = match t.take::<PeerFound>(0) { Some(m) => m, None => fail("a reachable peer is not announced") };
            check(m.peer.endpoint() == format!("{}.{}.{}.{}:{}", a[0], a[1], a[2], a[3], a[4] as u16 * 256 + a[5] as u16), "another peer than the next reachable one is announced");
            k += 1;
        }
    }
    check(t.pending() == 0, "a peer is announced that is not reachable, not in the answer, or announced already");
    if k > 0 { reach("announced") }
    if s.answer != Answer::Peers { reach("no answer") }
    s.tried.clear();
}
fn torrent(k: u8) -> (Vec<u8>, Addr<TorrentActor>) { let h = vec![k; 20]; (h.clone(), TorrentActor::new(h).start()) }
fn url(http: bool) -> Url { Url::parse(if http { "http://10.0.0.9:6969/announce" } else { "udp://10.0.0.9:6969/announce" }).unwrap() }
pub fn run() {
    start();
    match param("mode", 0) {
        // answers of a tracker for two torrents
        0 => {
            let http = bool("http");
            let a = TrackerActor { url: url(http) }.start();
            let two = [torrent(1), torrent(2)];
            for r in 0..param("rounds", 2) as usize {
                let w = choose("torrent", 2);
                let n = choose("peers", param("peers", 4) as usize);
                st().peers = vec![];
                // the same peers as before, or others
                let o = if r > 0 && bool("others") { r as u8 } else { 0 };
                for i in 0..n { st().peers.extend_from_slice(&[10, o, i as u8 + 1, [255, 0, 7][i % 3], [0x1a, 0, 0xff][i % 3], [0xe1, 80, 0xff][i % 3]]) }
                if n > 0 && param("bytes", 1) == 1 { let v = u8("byte"); let at = 6 * (n - 1) + choose("at", 6); st().peers[at] = v; if at == 6 * n - 4 { for i in 0..n - 1 { assume(v != i as u8 + 1) } } }
                st().answer = [Answer::Peers, Answer::Nothing, Answer::Odd][choose("answer", 3)];
                a.do_send(TorrentRegistered { info_hash: two[w].0.clone(), torrent_actor_addr: two[w].1.clone() });
                check(a.step(), "the registration is lost");
                check(st().asked == r + 1, "the tracker is not asked exactly once");
                if !http && st().answer != Answer::Nothing { check(st().hash == two[w].0, "the tracker is asked for another torrent") }
                check(two[1 - w].1.pending() == 0, "another torrent hears of the peers");
                judge(&two[w].1);
                reach(if http { "over HTTP" } else { "over UDP" });
            }
        }
        // many peers in one answer
        1 => {
            let n = [17, 50, 200, 663, 1000][choose("peers", param("sizes", 4) as usize)];
            let a = TrackerActor { url: url(bool("http")) }.start();
            let (h, t) = torrent(1);
            for i in 0..n { st().peers.extend_from_slice(&[10, 1, (i / 200) as u8, (i % 200) as u8 + 1, 0x1a, 0xe1]) }
            st().all = true;
            a.do_send(TorrentRegistered { info_hash: h, torrent_actor_addr: t.clone() });
            a.step();
            judge(&t);
        }
        // registrations go to every tracker once
        2 => {
            let i = TrackersInterfaceActor::new().start();
            let trackers = actix::mailboxes::<TrackerActor>();
            check(trackers.len() >= 18, "a configured tracker is missing");
            let n = 1 + choose("torrents", param("torrents", 3) as usize);
            let ts: Vec<_> = (0..n).map(|k| torrent(k as u8 + 1)).collect();
            for (h, t) in &ts { i.do_send(TorrentRegistered { info_hash: h.clone(), torrent_actor_addr: t.clone() }); if bool("at once") { i.step(); } }
            while i.pending() > 0 { i.step(); }
            for a in &trackers {
                check(a.pending() == n, "a registration is not passed to every tracker exactly once");
                for k in 0..n { a.peek::<TorrentRegistered, _>(k, |m| match m { Some(m) => check(m.info_hash == ts[k].0 && m.torrent_actor_addr == ts[k].1, "another registration is passed on"), None => fail("something else is passed on") }) }
            }
            // different addresses
            for a in 0..trackers.len() { for b in 0..a { check(trackers[a].0.workers.borrow()[0].url != trackers[b].0.workers.borrow()[0].url, "a tracker is asked twice") } }
            reach("passed on");
            // all of them are asked; the first, any two, or none of them answer
            let (x, y) = (choose("tracker", trackers.len()), choose("tracker", trackers.len()));
            for (k, a) in trackers.iter().enumerate() {
                st().answer = if k == x || k == y { Answer::Peers } else if k % 2 == 0 { Answer::Nothing } else { Answer::Odd };
                st().peers = vec![10, 3, k as u8, 1, 0x1a, 0xe1];
                st().all = true;
                for j in 0..n { a.step(); judge(&ts[j].1); }
            }
        }
        // many torrents at once with one tracker: each hears of its peers
        4 => {
            let http = bool("http");
            let a = TrackerActor { url: url(http) }.start();
            let i = TrackersInterfaceActor::new().start();
            let n = param("many", 40) as usize;
            let ts: Vec<_> = (0..n).map(|k| torrent(k as u8 + 1)).collect();
            let direct = bool("direct");
            st().all = true;
            for (h, t) in &ts { let m = TorrentRegistered { info_hash: h.clone(), torrent_actor_addr: t.clone() }; if direct { a.do_send(m) } else { i.do_send(m) } }
            while i.pending() > 0 { i.step(); }
            let b = if direct { a } else { let t = actix::mailboxes::<TrackerActor>(); t[1 + choose("tracker", 3)].clone() };
            check(b.pending() == n, "a registration is lost when there are many at once");
            let dead = choose("no answer for", 4) * 7;
            for k in 0..n {
                st().answer = if k == dead { Answer::Nothing } else { Answer::Peers };
                // peers of their own and shared ones
                st().peers = vec![10, 3, k as u8, 1, 0x1a, 0xe1, 10, 3, 200, 1, 0x1a, 0xe1];
                b.step();
                judge(&ts[k].1);
            }
            for (_, t) in &ts { check(t.pending() == 0, "a torrent hears of peers of another") }
            reach("many at once");
        }
        // addresses that are none
        _ => {
            let n = choose("len", param("len", 4) as usize + 1);
            let e = match choose("kind", 3) { 0 => match String::from_utf8(bytes("byte", n)) { Ok(s) => s, Err(_) => stop() }, 1 => { let b = bytes("port", n); for c in &b { assume(*c > 0x20 && *c < 0x7f) } format!("10.0.0.1:{}", String::from_utf8(b).unwrap()) } _ => ["localhost:80", "10.0.0.256:1", "10.0.0:1", "[::1]:80", "10.0.0.1", "10.0.0.1:65536"][choose("odd", 6)].to_owned() };
            let r = PeerEndpoint::is_reachable(&e);
            let up = st().tried.iter().any(|(_, o)| *o == Outcome::Accept);
            check(r == up, "an address counts as reachable that did not accept a connection, or the other way round");
            if st().tried.is_empty() { reach("no address") } else { reach("tried") }
        }
    }
}
