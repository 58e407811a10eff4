//! C09: message framing survives any segmentation of the stream.
use super::*;
use super::env::{self, Conn, End, Outcome, Seg, HOLD};
use super::sess::{four, handshake, msg};
use crate::messages::{ContentType, Message};
use crate::peer::stream::StreamInterface;
use crate::peer::Peer;
fn open() -> Peer {
    env::net_on();
    let a: ::std::net::SocketAddr = ::std::net::SocketAddr::from(([10, 0, 0, 1], 6881));
    match ::std::net::TcpStream::connect_timeout(&a, ::std::time::Duration::from_secs(1)) { Ok(t) => Peer::new(StreamInterface::Tcp(t), &[1; 20]), Err(_) => fail("model: no connection") }
}
fn conn() -> &'static mut Conn { &mut env::net().conns[0] }
fn delay() -> u32 { [0, HOLD, 1, 2, 5][choose("delay", param("delays", 3) as usize)] }
/// the stream in pieces that arrive one after the other
fn feed(b: &[u8], cuts: &[usize]) {
    let mut from = 0;
    for c in cuts { conn().pending.push(Seg { bytes: b[from..*c].to_vec(), delay: if from == 0 && !bool("first late") { 0 } else { delay() } }); from = *c }
    conn().pending.push(Seg { bytes: b[from..].to_vec(), delay: if from == 0 { 0 } else { delay() } });
}
fn same(m: &Message, w: &[u8]) {
    if w[0] == 19 && w.len() == 68 && w[1] == b'B' {
        match m.get_content() { ContentType::Handshake(h) => check(h.get_info_hash() == w[28..48].to_vec(), "a handshake read wrong"), _ => fail("a handshake is read as another message") }
        return;
    }
    check(m.get_id() == w[4], "a message of another type is taken off the stream");
    // what the client keeps of a message: bits, and where a block belongs and its bytes
    if w[4] == 5 || w[4] == 7 { check(&m.as_bytes()[5..] == &w[5..], "another message is taken off the stream") }
}
fn one(k: usize) -> Vec<u8> {
    match k { 0 => msg(1, &[]), 1 => msg(5, &bytes("bits", 2)), 2 => { let mut p = four(3).to_vec(); p.extend_from_slice(&four(16384)); p.extend_from_slice(&bytes("data", 2)); msg(7, &p) }
        3 => vec![0; 4], 4 => msg(0, &[]), 5 => msg(4, &[0, 0, 0, 19]), 6 => { let mut p = four(0).to_vec(); p.extend_from_slice(&four(0)); p.extend_from_slice(&vec![7; param("block", 300) as usize]); msg(7, &p) }, _ => handshake(&[9; 20]) }
}
/// every message sent is read, in order, and nothing else
fn judge(p: &mut Peer, sent: &[Vec<u8>]) {
    let want: Vec<&Vec<u8>> = sent.iter().filter(|m| m.len() > 4).collect();
    let mut got = 0;
    let segs = conn().pending.len();
    for k in 0..want.len() + segs + 2 {
        if k > 0 { conn().release() }
        match p.read_message() {
            Some(m) => { check(got < want.len(), "a message the peer did not send"); same(&m, want[got]); got += 1 }
            None => {}
        }
    }
    check(got == want.len(), "a message is lost");
    reach("all read");
}
pub fn run() {
    let mut p = open();
    match param("mode", 0) {
        // two or three messages, cut at up to two places
        0 => {
            let n = 1 + choose("messages", param("msgs", 3) as usize);
            let sent: Vec<Vec<u8>> = (0..n).map(|_| one(choose("message", param("kinds", 4) as usize))).collect();
            let b: Vec<u8> = sent.concat();
            let k = choose("cuts", param("cuts", 2) as usize + 1);
            let mut cuts = vec![];
            let mut from = 0;
            for i in 0..k { let c = from + 1 + choose("cut", b.len() - from); if c >= b.len() { break } cuts.push(c); from = c }
            feed(&b, &cuts);
            judge(&mut p, &sent);
        }
        // a handshake and what follows
        1 => {
            let sent = vec![one(7), one(choose("message", 6)), one(5)];
            let b: Vec<u8> = sent.concat();
            let c = 1 + choose("cut", b.len() - 1);
            let mut cuts = vec![c];
            if c + 1 < b.len() && bool("again") { cuts.push(c + 1 + choose("next", (b.len() - c - 1).min(param("near", 2) as usize))) }
            cuts.retain(|c| *c < b.len());
            feed(&b, &cuts);
            judge(&mut p, &sent);
        }
        // a block, cut at any place
        2 => {
            let mut sent = vec![one(6)];
            if bool("more") { sent.push(one(choose("message", 6))) }
            let b: Vec<u8> = sent.concat();
            let at = [1usize, 4, 5, 6, 12, 13, 14, 100, sent[0].len() - 1, sent[0].len(), sent[0].len() + 1][choose("cut", 11)];
            feed(&b, &if at < b.len() { vec![at] } else { vec![] });
            judge(&mut p, &sent);
        }
        // any length prefix, then the end, a reset or silence
        5 => {
            // a very long message between others
            let bits = bool("bitfield");
            let n = if bits { 40000 } else { param("long", 100_000) as usize };
            let big = if bits { msg(5, &(0..n).map(|i| (i % 253) as u8).collect::<Vec<u8>>()) } else { let mut p = four(3).to_vec(); p.extend_from_slice(&four(0)); p.extend((0..n).map(|i| (i % 253) as u8)); msg(7, &p) };
            let mut sent = vec![];
            if bool("before") { sent.push(one(1)) }
            sent.push(big);
            sent.push(one([0, 1, 5][choose("message", 3)]));
            let b: Vec<u8> = sent.concat();
            let cuts = match choose("cut", 7) { 0 => vec![], 1 => vec![3], 2 => vec![1460], 3 => vec![16384, 32768], 4 => vec![35000], 5 => vec![b.len() - 8], _ => vec![70, n] };
            feed(&b, &cuts);
            judge(&mut p, &sent);
        }
        3 => {
            let head = bytes("head", 5);
            let rest = choose("rest", param("rests", 2) as usize) * 2;
            let mut b = head.clone();
            b.extend_from_slice(&bytes("rest", rest));
            let first = choose("cut", b.len() + 1);
            b.truncate(b.len() - choose("missing", param("missing", 2) as usize));
            if first > 0 && first < b.len() { feed(&b, &[first]) } else { feed(&b, &[]) }
            conn().end = [End::Open, End::Fin, End::Reset][choose("end", 3)];
            let mut got = 0;
            for k in 0..3 { if let Some(m) = p.read_message() { got += 1; check(got <= 2, "more messages than there are bytes"); } conn().release() }
            // a message only if all of it was there, and not of the form of a handshake
            if got > 0 && head[0] != 19 {
                let n = sess::be(&head[..4]);
                check(n < b.len() as u64, "a message longer than the stream");
                reach("message");
            } else if got == 0 { reach("no message") }
        }
        // the stream ends or breaks in the middle of a message
        _ => {
            let w = one([1, 2, 7][choose("message", 3)]);
            let k = choose("bytes", w.len());
            if k > 0 { feed(&w[..k], &[]) }
            conn().end = if bool("reset") { End::Reset } else { End::Fin };
            for _ in 0..3 { check(p.read_message().is_none(), "a message from a broken stream") }
            reach("ended");
        }
    }
}
