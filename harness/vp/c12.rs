//! C12: only hash-verified pieces are delivered.
use super::*;
use super::env::{self, Conn, End, Outcome, HOLD};
use super::sess::{self, four, handshake, info, msg, ready, s, say, Mark, Req};
use crate::actors::connection::ConnectionActor;
use crate::actors::messages::{PieceDownloadFailed, PieceDownloadSuccessfull, PieceRequested};
use crate::actors::torrent::TorrentActor;
use crate::peer::manager;
use actix::prelude::*;
pub struct St { pieces: Vec<Vec<u8>>, idx: usize, asked: usize, right: bool }
static ST: Global<St> = Global::new();
fn st() -> &'static mut St { ST.get() }
fn block(n: u64, o: u64, d: &[u8]) -> Vec<u8> { let mut b = four(n as u32).to_vec(); b.extend_from_slice(&four(o as u32)); b.extend_from_slice(d); msg(7, &b) }
fn answer(c: &mut Conn, r: &Req) {
    let (i, off, len) = match r { Req::Block(a, b, c) => (*a, concretize(*b), concretize(*c) as usize), _ => fail("metadata is requested while a piece is downloaded") };
    let p = &st().pieces[st().idx];
    let part = |from: usize, n: usize| p[from.min(p.len())..(from + n).min(p.len())].to_vec();
    let o = off as usize;
    let right = part(o, len);
    st().asked += 1;
    let at = param("at", 0) as usize;
    let k = if if at > 0 { st().asked != at } else { st().asked > param("odd", 2) as usize } { 0 } else { choose("answer", param("answers", 15) as usize) };
    if k > 2 { st().right = false }
    match k {
        0 => say(c, &block(i, off, &right), 0, None),
        1 => say(c, &block(i, off, &right), 1 + choose("late", 2) as u32, None),
        2 => { say(c, &vec![0; 4], 0, None); say(c, &msg(4, &four(1)), 0, None); say(c, &block(i, off, &right), 0, None) }
        // any one byte changed
        3 => { let mut d = right; if !d.is_empty() { let k = [0, d.len() / 2, d.len() - 1][choose("at", 3)]; let b = u8("byte"); assume(b != d[k]); d[k] = b } say(c, &block(i, off, &d), 0, None) }
        // short, empty or long
        4 => say(c, &block(i, off, &part(o, len.saturating_sub(1))), 0, None),
        5 => say(c, &block(i, off, &[]), 0, None),
        6 => { let mut d = right; d.push(u8("more")); say(c, &block(i, off, &d), 0, None) }
        // twice
        7 => { say(c, &block(i, off, &right), 0, None); say(c, &block(i, off, &right), 0, None) }
        // of another place in the piece or of another piece, said to be or not
        8 => say(c, &block(i, off, &part(if o == 0 { 16384 } else { 0 }, len)), 0, None),
        9 => { let q = &st().pieces[(st().idx + 1) % st().pieces.len()]; let d = q[o.min(q.len())..(o + len).min(q.len())].to_vec(); say(c, &block(if bool("header") { (st().idx as u64 + 1) % st().pieces.len() as u64 } else { i }, off, &d), 0, None) }
        10 => say(c, &block(u32("piece") as u64, u32("offset") as u64, &right), 0, None),
        // chokes, silence, the end
        11 => { say(c, &msg(0, &[]), 0, Some(Mark::Choke)); if bool("data") { say(c, &block(i, off, &right), 0, None) } if bool("unchoke") { say(c, &msg(1, &[]), 0, Some(Mark::Unchoke)); say(c, &block(i, off, &right), 0, None) } }
        12 => {}
        13 => { if bool("part") { let b = block(i, off, &right); say(c, &b[..b.len() - 1], 0, None) } c.end = [End::Fin, End::Reset][choose("end", 2)] }
        // nothing of use
        _ => { let m = [msg(7, &[0; 7]), msg(9, &[1]), msg(20, b"\x01d8:msg_typei1e5:piecei0eexx"), msg(20, b"\x01x"), vec![0xff, 0xff, 0xff, 0xff, 7], handshake(&[9; 20])]; say(c, &m[choose("what", 6)], 0, None) }
    }
}
static mut BEFORE: usize = 0;
fn before(c: &mut Conn, r: &Req) {
    let (i, o, len) = match r { Req::Block(a, b, c) => (*a, concretize(*b) as usize, concretize(*c) as usize), _ => fail("metadata is requested while a piece is downloaded") };
    let p = &st().pieces[st().idx];
    let mut d = p[o.min(p.len())..(o + len).min(p.len())].to_vec();
    match unsafe { BEFORE } { 0 => {} 1 => { d[0] ^= 1 } _ => { c.end = End::Fin; return } }
    say(c, &block(i, o as u64, &d), 0, None)
}
pub fn run() {
    // the sizes of the pieces
    let (pl, last) = [(20usize, 20usize), (20, 7), (16384, 5), (16389, 16389), (16389, 16385), (32768, 16384), (32768, 32768), (40000, 33000)][choose("sizes", param("sizes", 6) as usize)];
    let n = 1 + choose("pieces", param("pieces", 2) as usize);
    let idx = choose("piece", n);
    let pieces: Vec<Vec<u8>> = (0..n).map(|k| (0..if k + 1 == n { last } else { pl }).map(|i| if pl == last && pl == 32768 { k as u8 } else { (i / 16384 * 3 + k + i % 7) as u8 }).collect()).collect();
    for (k, p) in pieces.iter().enumerate() { sha1::define(p, [k as u8; 20]) }
    sess::start(&[]);
    let i = info(pl as u64, (pl * (n - 1) + last) as u64, n, false);
    s().hash = i.compute_info_hash();
    s().greet = ready;
    s().answer = answer;
    ST.set(St { pieces: pieces.clone(), idx, asked: 0, right: true });
    let at = "10.0.0.1:6881".to_owned();
    let got = if param("actor", 0) == 0 { manager::download(at, &i, idx).ok() } else {
        // through the connection actor: exactly one report to the torrent it belongs to
        let t = TorrentActor::new(vec![1; 20]).start();
        let a = SyncArbiter::start(1, || ConnectionActor);
        // the same connection has been used before: for the piece of another torrent or the other piece, with the same peer, and got it or not
        if param("before", 0) == 1 && bool("used before") {
            let (j, other) = if n > 1 && bool("of the same torrent") { (i.clone(), 1 - idx) } else { (sess::info_from(pl as u64, (pl * n) as u64, n, false, 100), idx) };
            let u = TorrentActor::new(vec![2; 20]).start();
            s().hash = j.compute_info_hash();
            let theirs: Vec<Vec<u8>> = if j == i { st().pieces.clone() } else { (0..n).map(|k| (0..pl).map(|i| (i % 5) as u8 + 100 + k as u8).collect()).collect() };
            if j != i { for (k, p) in theirs.iter().enumerate() { sha1::define(p, [k as u8 + 100; 20]) } }
            unsafe { BEFORE = choose("before", 3) }
            ST.set(St { pieces: theirs, idx: other, asked: 0, right: true });
            s().answer = before;
            a.do_send(PieceRequested { endpoint: at.clone(), info: j, piece_idx: other, torrent_actor: u.clone() });
            a.step_sync(0, 0);
            check(u.pending() == 1, "not exactly one report on a download");
            match u.take::<PieceDownloadSuccessfull>(0) { Some(m) => check(m.piece_idx == other && m.piece == st().pieces[other], "data that is not the piece is delivered"), None => {} }
            s().hash = i.compute_info_hash();
            s().answer = answer;
            ST.set(St { pieces: pieces.clone(), idx, asked: 0, right: true });
            reach("used before");
        }
        a.do_send(PieceRequested { endpoint: at.clone(), info: i.clone(), piece_idx: idx, torrent_actor: t.clone() });
        a.step_sync(0, 0);
        check(t.pending() == 1, "not exactly one report on a download");
        match t.take::<PieceDownloadSuccessfull>(0) {
            Some(m) => { check(m.endpoint == at && m.piece_idx == idx, "the report names another peer or piece"); Some(m.piece) }
            None => None,
        }
    };
    match got {
        Some(b) => { check(b == st().pieces[idx], "data that is not the piece is delivered"); reach("delivered") }
        None => { check(!st().right, "a download that is answered as requested fails"); reach("refused") }
    }
    if st().asked > 1 { reach("several blocks") }
}
