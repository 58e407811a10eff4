//! C11: block requests tile exactly the piece being downloaded.
use super::*;
use super::env::{self, Conn, End, Outcome, HOLD};
use super::sess::{self, four, info, msg, ready, s, say, Mark, Req};
use crate::peer::manager;
pub struct Piece { idx: u64, pl: u64, size: u64, next: u64, asked: usize }
static P: Global<Piece> = Global::new();
fn p() -> &'static mut Piece { P.get() }
fn judge(r: &Req) -> (u64, u64) {
    let (piece, off, len) = match r { Req::Block(a, b, c) => (*a, *b, *c), Req::Meta(..) => fail("metadata is requested while a piece is downloaded") };
    p().asked += 1;
    check(piece == p().idx, "a block of another piece is requested");
    check(len > 0, "an empty block is requested");
    check(len <= 16384, "a block of more than 16384 bytes is requested");
    check(off < p().size && len <= p().size - off, "a block outside of the piece is requested");
    (off, len)
}
/// answers of any kind: short, empty, twice, of another place, none
fn odd(c: &mut Conn, r: &Req) {
    let (off, len) = judge(r);
    let block = |n: u32, o: u32, d: &[u8]| { let mut b = four(n).to_vec(); b.extend_from_slice(&four(o)); b.extend_from_slice(d); msg(7, &b) };
    let i = p().idx as u32;
    if p().asked > param("answers", 4) as usize { return }
    match if p().asked > param("odd", 2) as usize { 0 } else { choose("answer", 7) } {
        0 => say(c, &block(i, 0, &[1]), 0, None),
        1 => say(c, &block(i, 0, &[]), 0, None),
        2 => { say(c, &block(i, 0, &[1]), 0, None); say(c, &block(i, 0, &[1, 2]), 0, None) }
        3 => say(c, &block(u32("piece"), u32("offset"), &[1]), 0, None),
        4 => { say(c, &msg(0, &[]), 0, Some(Mark::Choke)); say(c, &block(i, 0, &[1]), 0, None); say(c, &msg(1, &[]), 0, Some(Mark::Unchoke)) }
        5 => { say(c, &vec![0; 4], 0, None); say(c, &msg(4, &four(1)), 0, None); say(c, &block(i, 0, &[1; 40]), 0, None) }
        _ => {}
    }
}
/// each request is answered once, with as many bytes as it asks for
fn right(c: &mut Conn, r: &Req) {
    let (off, len) = judge(r);
    check(off == p().next, "a request does not start where the previous one ended");
    p().next = off + len;
    let mut b = four(p().idx as u32).to_vec();
    b.extend_from_slice(&four(off as u32));
    b.resize(8 + concretize(len) as usize, 5);
    say(c, &msg(7, &b), 0, None);
    if bool("late") { if let Some(l) = c.pending.last_mut() { l.delay = 1 } }
}
pub fn run() {
    if param("mode", 0) == 2 {
        // a torrent of many pieces, one of them asked for
        let n = 1 + param("many", 70000) as usize;
        let pl = [20u64, 16384][choose("piece length", 2)];
        let idx = [0, 1, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, n - 2, n - 1][choose("piece", 13)].min(n - 1);
        sess::start(&[]);
        let i = info(pl, pl * (n as u64 - 1) + 7, n, false);
        let size = if idx + 1 == n { 7 } else { pl };
        P.set(Piece { idx: idx as u64, pl, size, next: 0, asked: 0 });
        s().hash = i.compute_info_hash();
        s().greet = ready;
        s().answer = right;
        sha1::define(&vec![5; size as usize], [(idx % 251) as u8; 20]);
        match manager::download("10.0.0.1:6881".to_owned(), &i, idx) { Ok(b) => check(b.len() as u64 == size, "a piece of another size"), Err(_) => fail("a piece that is sent as requested is refused") }
        check(p().next == size, "the requests do not cover the piece");
        reach(if idx + 1 == n { "last" } else { "late" });
    } else if param("mode", 0) == 0 {
        // n pieces, the last one of any length
        let (lo, n) = match choose("size", 8) { 0 => (1u64, 1usize), 1 => (1, 3), 2 => (16384 - 32, 2), 3 => (2 * 16384 - 32, 2), 4 => (3 * 16384 - 20, 1), 5 => (1 << 20, 3), 6 => ((1 << 30) - 10, 5), _ => (0xffff_ffff - 63, 3) };
        let pl = lo + range("piece length", 0, 63);
        let rest = match choose("rest", 4) { 0 => 0, 1 => { assume(pl > 80); 16384.min(pl) - 30 + range("rest", 0, 29) } 2 => range("rest", 0, 63).min(pl - 1), _ => pl - 1 - range("rest", 0, 63).min(pl - 1) };
        let last = if rest == 0 { pl } else { rest };
        let total = pl * (n as u64 - 1) + last;
        let idx = choose("piece", n);
        sess::start(&[]);
        let i = info(pl, total, n, param("files", 1) == 1 && bool("files"));
        P.set(Piece { idx: idx as u64, pl, size: if idx + 1 == n { last } else { pl }, next: 0, asked: 0 });
        s().hash = i.compute_info_hash();
        s().greet = ready;
        s().answer = odd;
        let _ = manager::download("10.0.0.1:6881".to_owned(), &i, idx);
        check(p().asked > 0, "nothing is requested from a peer that is ready");
        reach("requests");
        if idx > 0 { reach("not the first piece") }
        if p().asked > 1 { reach("several requests") }
    } else {
        let k = 16384 * choose("blocks", param("blocks", 3) as usize) as u64;
        let pl = if k == 0 { [1, 2, 20, 16383][choose("piece length", 4)] } else { k + choose("piece length", 3) as u64 - 1 };
        let n = 1 + choose("pieces", 2);
        let last = match choose("last", 5) { 0 => pl, 1 => 1, 2 => pl.min(16384), 3 => (pl - 1).max(1), _ => (pl / 2).max(1) };
        let idx = choose("piece", n);
        sess::start(&[]);
        let i = info(pl, pl * (n as u64 - 1) + last, n, false);
        let size = if idx + 1 == n { last } else { pl };
        P.set(Piece { idx: idx as u64, pl, size, next: 0, asked: 0 });
        s().hash = i.compute_info_hash();
        s().greet = ready;
        s().answer = right;
        sha1::define(&vec![5; size as usize], [idx as u8; 20]);
        let r = manager::download("10.0.0.1:6881".to_owned(), &i, idx);
        check(p().next == size, "the requests do not cover the piece");
        match r { Ok(b) => check(b.len() as u64 == size, "a piece of another size"), Err(_) => fail("a piece that is sent as requested is refused") }
        reach("covered");
        if p().asked > 1 { reach("several blocks") }
    }
}
