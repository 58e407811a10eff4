//! C17 (mode 0, 1): every piece is fetched, none forgotten or written twice.
//! C18 (mode 2, 3): download work goes to known, least-failing peers.
use super::*;
use super::env::{self, Conn, End, Outcome, HOLD};
use super::sess::{self, ext, four, handshake, msg, num, ready, s, say, Mark, Req};
use crate::actors::connection::ConnectionActor;
use crate::actors::messages::{PeerFound, PieceDownloadFailed, PieceDownloadSuccessfull, PieceReady, PieceRequested};
use crate::actors::torrent::TorrentActor;
use crate::actors::writer::WriterActor;
use crate::torrent::info::Info;
use crate::tracker::peer_endpoint::PeerEndpoint;
use actix::prelude::*;
#[derive(Clone)]
pub struct Job { piece: usize, peer: String }
pub struct St { t: Addr<TorrentActor>, info: Info, n: usize, known: Vec<String>, fails: Vec<usize>, out: Vec<Job>, ready: Vec<(usize, Vec<u8>)>, done: Vec<bool>, begun: bool, must: Option<String>, marks: u8 }
static ST: Global<St> = Global::new();
fn st() -> &'static mut St { ST.get() }
static META: Global<Vec<u8>> = Global::new();
static PIECES: Global<Vec<Vec<u8>>> = Global::new();
static mut REFUSE: bool = false;
fn connect(_c: &mut Conn) -> Outcome {
    if unsafe { REFUSE } { return Outcome::Refuse }
    s().parsed = 0; s().greeted = false; s().said = 0; s().marks.clear();
    Outcome::Accept
}
fn greet(c: &mut Conn) {
    let h = s().hash.clone();
    say(c, &handshake(&h), 0, Some(Mark::Greeting));
    say(c, &msg(1, &[]), 0, Some(Mark::Unchoke));
    let e = ext(Some(2), Some(META.get().len() as u64));
    say(c, &e, 0, Some(Mark::Size));
}
/// serves metadata; blocks as the run wants them
fn answer(c: &mut Conn, r: &Req) {
    match r {
        Req::Meta(_, n) => {
            let mut p = vec![1u8];
            p.extend_from_slice(b"d8:msg_typei1e5:piecei"); num(&mut p, *n);
            p.extend_from_slice(b"e10:total_sizei"); num(&mut p, META.get().len() as u64);
            p.extend_from_slice(b"ee");
            p.extend_from_slice(META.get());
            say(c, &msg(20, &p), 0, None)
        }
        Req::Block(i, off, len) => {
            let (i, off, len) = (concretize(*i), concretize(*off), concretize(*len));
            let mut d = match PIECES.get().get(i as usize) { Some(p) => p[(off as usize).min(p.len())..((off + len) as usize).min(p.len())].to_vec(), None => fail("a piece that does not exist is requested") };
            match unsafe { SPOIL } { 1 => if !d.is_empty() { d[0] ^= 0x80 }, 2 => { say(c, &msg(0, &[]), 0, Some(Mark::Choke)); return } 3 => { c.end = End::Reset; return } _ => {} }
            let mut b = four(i as u32).to_vec(); b.extend_from_slice(&four(off as u32)); b.extend_from_slice(&d);
            say(c, &msg(7, &b), 0, None)
        }
    }
}
static mut SPOIL: usize = 0;
/// peers 1, 2 and 3 (and 11, 12) share the beginning of their address; 2 and 3 the whole of it
fn peer(k: usize) -> PeerEndpoint { let (b, p) = match k { 1 => (12, 688u16), 2 => (12, 6881), 3 => (12, 68), 4 => (1, 6881), 12 => (120, 6881), k => (k as u8 + 20, 6881) }; PeerEndpoint::from_bytes(&[10, 0, 1, b, (p >> 8) as u8, p as u8]).remove(0) }
fn hash_of(k: usize) -> [u8; 20] { let mut h = [(k % 256) as u8; 20]; h[0] = (k / 256) as u8 + 1; h }
/// a torrent of n pieces of 3 bytes (the last: `last`) in the given files
fn start(n: usize, last: usize, two: bool) {
    let total = 3 * (n - 1) + last;
    let mut m = vec![];
    if two { m.extend_from_slice(b"d5:filesld6:lengthi"); num(&mut m, total as u64 / 2); m.extend_from_slice(b"e4:pathl1:aeed6:lengthi"); num(&mut m, (total - total / 2) as u64); m.extend_from_slice(b"e4:pathl1:b1:ceee") }
    else { m.extend_from_slice(b"d6:lengthi"); num(&mut m, total as u64); m.push(b'e') }
    m.extend_from_slice(b"4:name1:n12:piece lengthi3e6:pieces");
    num(&mut m, 20 * n as u64); m.push(b':');
    let mut pieces = vec![];
    for k in 0..n {
        let h = hash_of(k);
        m.extend_from_slice(&h);
        let p: Vec<u8> = (0..if k + 1 == n { last } else { 3 }).map(|i| if n > 20 { [k as u8, (k >> 8) as u8, 7][i] } else { (10 * k + i) as u8 + 1 }).collect();
        sha1::define(&p, h);
        pieces.push(p);
    }
    m.push(b'e');
    let hash = [0xaa; 20];
    sha1::define(&m, hash);
    sess::start(&hash);
    env::files_on();
    env::net().on_connect = connect;
    env::net().max_calls = 1_000_000;
    s().greet = greet;
    s().answer = answer;
    let info = match Info::from_bytes(m.clone()) { Ok(i) => i, Err(_) => fail("usable metadata is refused") };
    META.set(m);
    PIECES.set(pieces);
    let t = TorrentActor::new(hash.to_vec()).start();
    ST.set(St { t, info, n, known: vec![], fails: vec![], out: vec![], ready: vec![], done: vec![false; n], begun: false, must: None, marks: 0 });
}
/// reads what the torrent has asked for and handed over since
fn collect() {
    let mut new = vec![];
    for a in actix::mailboxes::<ConnectionActor>() {
        while a.pending() > 0 {
            let r = match a.take::<PieceRequested>(0) { Some(r) => r, None => fail("an unknown order for the connections") };
            check(r.torrent_actor == st().t, "a download reports to another torrent");
            check(r.info == st().info, "a download with the info of another torrent");
            new.push(Job { piece: r.piece_idx, peer: r.endpoint });
        }
    }
    for j in new {
        check(j.piece < st().n, "a piece that does not exist is requested");
        check(!st().done[j.piece], "a piece that is written is requested again");
        for o in &st().out { check(o.piece != j.piece, "a piece is assigned to two downloads at once") }
        place(&j.peer);
        st().out.push(j);
        st().begun = true;
    }
    for a in actix::mailboxes::<WriterActor>() {
        while a.pending() > 0 {
            let r = match a.take::<PieceReady>(0) { Some(r) => r, None => fail("an unknown order for the writer") };
            let k = match st().ready.iter().position(|e| e.0 == r.piece_idx) { Some(k) => k, None => fail("a piece that was not downloaded, or was written already, is handed to the writer") };
            let (_, data) = st().ready.remove(k);
            check(r.piece == data, "the writer gets other data than was downloaded");
            check(r.piece_length == st().info.get_piece_length(), "the writer gets a wrong piece length");
            match st().info.get_files() { Ok(f) => check(r.files == f, "the writer gets other files"), Err(_) => fail("info without files") }
        }
    }
    check(st().ready.is_empty(), "a downloaded piece is not handed to the writer");
    if st().begun && st().out.is_empty() { for d in &st().done { check(*d, "the work stalls while pieces wait") } }
}
/// the peer an order goes to
fn place(p: &str) {
    let k = match st().known.iter().position(|k| k == p) { Some(k) => k, None => fail("a piece is requested from a peer that was not discovered for the torrent") };
    if param("mode", 0) < 2 { return }
    if let Some(m) = &st().must { check(p == m, "a peer that completed a download does not get the next piece"); reach("kept busy"); return }
    let (mut two, mut four) = (false, false);
    for f in &st().fails { if *f < 2 { two = true } if *f < 4 { four = true } }
    let f = st().fails[k];
    if two { check(f < 2, "a peer with two failures or more is asked although there is one with fewer"); reach("fewer than two") }
    else if four { check(f < 4, "a peer with four failures or more is asked although there is one with fewer"); reach("fewer than four") }
    else { reach("any") }
}
fn found(k: usize) {
    let p = peer(k);
    if !st().known.contains(&p.endpoint()) { st().known.push(p.endpoint()); st().fails.push(0) }
    st().must = None;
    st().t.do_send(PeerFound { peer: p });
    st().t.step();
    collect();
}
fn finish(k: usize, ok: bool) {
    let j = st().out.remove(k);
    if ok {
        st().done[j.piece] = true;
        st().marks = st().marks.wrapping_add(1);
        // data of its own
        let data = vec![j.piece as u8, (j.piece >> 8) as u8, st().marks];
        st().ready.push((j.piece, data.clone()));
        st().must = Some(j.peer.clone());
        st().t.do_send(PieceDownloadSuccessfull { endpoint: j.peer, piece: data, piece_idx: j.piece });
    } else {
        st().must = None;
        for (i, p) in st().known.iter().enumerate() { if *p == j.peer { st().fails[i] += 1 } }
        st().t.do_send(PieceDownloadFailed { endpoint: j.peer, piece_idx: j.piece });
    }
    st().t.step();
    collect();
}
/// peers up to the beginning of the downloads; the first `late` of them give no metadata
fn begin(late: usize, distinct: usize) {
    let mut k = 0;
    while !st().begun && k < 30 { unsafe { REFUSE = k < late } found(k % distinct); k += 1 }
    unsafe { REFUSE = false }
    check(st().begun, "nothing is requested although thirty peers are known");
}
/// all downloads succeed from now on
fn end() {
    let mut left = st().n + 1;
    while !st().out.is_empty() { check(left > 0, "more downloads than pieces"); left -= 1; finish(0, true) }
    for d in &st().done { check(*d, "a piece is never fetched") }
    reach("complete");
}
fn events(n: usize, workers: usize, found_too: bool) {
    for e in 0..n {
        if st().out.is_empty() { break }
        let w = st().out.len().min(workers);
        let k = choose("event", if found_too { 2 * w + 1 } else { 2 * w });
        if k == 2 * w { found(40 + e); reach("peer found later") }
        else { if k % 2 == 1 { reach("failed") } finish(k / 2, k % 2 == 0) }
    }
}
pub fn run() {
    match param("mode", 0) {
        // any order of successes and failures
        0 => {
            // (pieces, size of the last, peers without metadata)
            let (n, last, late) = [(8, 1, 0), (6, 3, 4), (5, 1, 13), (3, 3, 0), (1, 1, 0), (7, 2, 0), (4, 1, 11), (2, 3, 9), (11, 2, 13)][param("from", 0) as usize + choose("torrent", param("torrents", 5) as usize)];
            start(n, last, n == 6);
            begin(late, 40);
            events(param("events", 3) as usize, 5, true);
            end()
        }
        // the whole way: downloads from peers, files at the end
        1 => {
            let n = 1 + choose("pieces", param("pieces", 3) as usize);
            start(n, 2, bool("files"));
            let mut k = 0;
            let t = st().t.clone();
            let jobs = || actix::mailboxes::<ConnectionActor>().iter().map(|a| a.pending()).sum::<usize>();
            while jobs() == 0 && k < 30 { t.do_send(PeerFound { peer: peer(k) }); t.step(); k += 1 }
            let mut odd = param("odd", 2);
            let mut rounds = 0;
            // downloads, reports and writes until nothing is left to do
            loop {
                let mut idle = true;
                for a in actix::mailboxes::<ConnectionActor>() {
                    if a.pending() == 0 { continue }
                    idle = false;
                    let w = choose("worker", a.pending().min(param("workers", 2) as usize));
                    let how = if odd > 0 { choose("download", 5) } else { 0 };
                    if how > 0 { odd -= 1 }
                    unsafe { REFUSE = how == 4; SPOIL = how }
                    a.step_sync(0, w);
                    unsafe { REFUSE = false; SPOIL = 0 }
                }
                while t.pending() > 0 { idle = false; t.step(); }
                let writers = actix::mailboxes::<WriterActor>();
                for a in &writers { while a.pending() > 0 { idle = false; a.step_sync(0, 0); } }
                if idle { break }
                rounds += 1;
                check(rounds < 40, "the downloads do not come to an end");
            }
            // the files hold the pieces
            let all: Vec<u8> = PIECES.get().concat();
            let mut got = vec![];
            for f in match st().info.get_files() { Ok(f) => f, Err(_) => fail("info without files") } {
                match env::contents(&f.get_path().join("/")) { Some(b) => { check(b.len() as u64 == f.get_length() as u64, "a file of wrong size"); got.extend_from_slice(&b) } None => check(f.get_length() == 0, "a file is missing") }
            }
            check(got == all, "the files do not hold the torrent");
            reach("downloaded");
            if odd < param("odd", 2) { reach("after failures") }
        }
        // torrents of many pieces, one or two failures on the way
        4 => {
            let n = [64, 65, 128, 256, 257, param("many", 600) as usize][choose("torrent", param("torrents", 6) as usize)];
            start(n, 3, false);
            begin(0, 40);
            let at = [0, 30, n - 12, n - 6, n - 5][choose("after", 5)];
            for k in 0..at { finish(k % 5, true) }
            let w = st().out.len();
            finish(choose("download", w), false);
            if bool("again") { let w = st().out.len(); finish(w - 1, false) }
            reach("failed");
            end()
        }
        // any choice of peers after a given number of failures
        2 => {
            start(8, 2, false);
            begin([0, 13][param("late", 0) as usize], 40);
            let f = choose("failures", param("failures", 48) as usize) * param("step", 1) as usize;
            for k in 0..f { finish(k % 5, false) }
            rand::symbolic(true);
            events(param("events", 1) as usize, param("workers", 2) as usize, false);
        }
        // very many failures of three peers, then a new one that has to be preferred
        5 => {
            start(8, 2, false);
            begin(0, 3);
            let f = [12, 13, 14, 60, 264, 300, 780, param("most", 800) as usize][choose("failures", 8)];
            for k in 0..f { finish(k % 5, false) }
            found(50);
            rand::symbolic(true);
            events(param("events", 1) as usize, param("workers", 2) as usize, false);
        }
        // few peers, found again and again
        _ => {
            start(8, 2, false);
            begin(0, 3);
            let f = choose("failures", param("failures", 14) as usize);
            for k in 0..f { finish(k % 5, false) }
            rand::symbolic(true);
            rand::orders(3);
            events(param("events", 2) as usize, param("workers", 2) as usize, false);
        }
    }
}
