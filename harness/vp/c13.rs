//! C13 (mode 0, 1): metadata is accepted only if it matches the info-hash.
//! C14 (mode 2, 3): metadata is requested piece by piece and reassembled in order.
use super::*;
use super::env::{self, Conn, End, Outcome, HOLD};
use super::sess::{self, ext, four, handshake, msg, num, s, say, Mark, Req};
use crate::actors::messages::PeerFound;
use crate::actors::torrent::TorrentActor;
use crate::peer::manager;
use crate::torrent::info::Info;
use crate::tracker::peer_endpoint::PeerEndpoint;
use actix::prelude::*;
pub struct St { meta: Vec<u8>, hash: Vec<u8>, id: u8, size: u64, got: Vec<u8>, right: bool, asked: u64 }
static ST: Global<St> = Global::new();
fn st() -> &'static mut St { ST.get() }
fn data(kind: u64, piece: u64, total: u64, d: &[u8]) -> Vec<u8> {
    let mut p = vec![1u8];
    p.extend_from_slice(b"d8:msg_typei"); num(&mut p, kind);
    p.extend_from_slice(b"e5:piecei"); num(&mut p, piece); p.push(b'e');
    if kind == 1 { p.extend_from_slice(b"10:total_sizei"); num(&mut p, total); p.push(b'e') }
    p.push(b'e');
    p.extend_from_slice(d);
    msg(20, &p)
}
fn ready(c: &mut Conn) {
    let h = s().hash.clone();
    say(c, &handshake(&h), 0, Some(Mark::Greeting));
    say(c, &msg(1, &[]), 0, Some(Mark::Unchoke));
    let e = ext(Some(st().id as u64), Some(st().size));
    say(c, &e, 0, Some(Mark::Size));
}
fn judge(r: &Req) -> u64 {
    let (id, n) = match r { Req::Meta(a, b) => (*a, *b), _ => fail("a block is requested while the metadata is fetched") };
    check(id == st().id && id != 0, "metadata is requested with another id than announced");
    check(n == st().asked, "metadata pieces are not requested in order from zero");
    let n = concretize(n);
    check(n < st().size / 16384 + if st().size % 16384 > 0 { 1 } else { 0 }, "metadata beyond the announced size is requested");
    st().asked += 1;
    n
}
fn deliver(c: &mut Conn, n: u64, d: &[u8], late: u32) { st().got.extend_from_slice(d); let m = data(1, n, st().size, d); say(c, &m, late, None) }
fn answer(c: &mut Conn, r: &Req) {
    let n = judge(r) as usize;
    let m = &st().meta;
    let right = m[(n * 16384).min(m.len())..((n + 1) * 16384).min(m.len())].to_vec();
    let k = if st().asked > param("odd", 1) { 0 } else { choose("answer", param("answers", 13) as usize) };
    if k > 2 { st().right = false }
    let i = n as u64;
    match k {
        0 => deliver(c, i, &right, 0),
        1 => deliver(c, i, &right, 2),
        2 => { say(c, &vec![0; 4], 0, None); say(c, &msg(4, &four(1)), 0, None); deliver(c, i, &right, 0) }
        // any one byte changed
        3 => { let mut d = right; let k = choose("at", d.len().min(param("places", 12) as usize)); let k = if bool("from the end") { d.len() - 1 - k } else { k }; let b = u8("byte"); assume(b != d[k]); d[k] = b; deliver(c, i, &d, 0) }
        4 => deliver(c, i, &right[..right.len() - 1 - choose("short", 2).min(right.len() - 1)], 0),
        5 => deliver(c, i, &[], 0),
        6 => { let mut d = right; d.push(u8("more")); deliver(c, i, &d, 0) }
        // the metadata of another torrent
        7 => { let o = meta(right.len(), true); deliver(c, i, &o, 0) }
        // refused, silence, the end, choke
        8 => { let m = data(2, i, 0, &[]); say(c, &m, 0, None) }
        9 => {}
        10 => { c.end = [End::Fin, End::Reset][choose("end", 2)] }
        11 => { say(c, &msg(0, &[]), 0, Some(Mark::Choke)); deliver(c, i, &right, 0) }
        // messages of no use
        _ => { let m = [msg(20, b"\x01d8:msg_typei1e"), msg(20, b"\x01"), msg(20, &[]), msg(20, b"\x01i1e"), msg(20, b"\x01d8:msg_type1:1e"), msg(7, &[0; 9])]; say(c, &m[choose("what", 6)], 0, None) }
    }
}
/// metadata of a torrent, of about n bytes
fn meta(n: usize, other: bool) -> Vec<u8> {
    let mut v = b"d6:lengthi1e4:name".to_vec();
    let k = if n > 100 { n - 75 } else { 1 };
    num(&mut v, k as u64);
    v.push(b':');
    v.extend_from_slice(&vec![if other { b'o' } else { b'n' }; k]);
    v.extend_from_slice(b"12:piece lengthi1e6:pieces20:");
    v.extend_from_slice(&[7; 20]);
    v.push(b'e');
    v
}
fn start(meta: Vec<u8>, size: u64, id: u8) {
    sess::start(&[]);
    let hash = bytes("hash", if param("mode", 0) == 1 { 1 } else { 20 });
    let mut h = [1u8; 20];
    h[..hash.len()].copy_from_slice(&hash);
    sha1::define(&meta, h);
    s().hash = h.to_vec();
    s().greet = ready;
    s().answer = answer;
    ST.set(St { meta, hash: h.to_vec(), id, size, got: vec![], right: true, asked: 0 });
}
fn refuse(_c: &mut Conn) -> Outcome { Outcome::Refuse }
fn expected() -> Option<Info> { Info::from_bytes(st().meta.clone()).ok() }
pub fn run() {
    match param("mode", 0) {
        0 | 1 => {
            let m = match param("from_meta", 0) as usize + choose("metadata", (param("metas", 4) - param("from_meta", 0)) as usize) { 0 => meta(0, false), 1 => b"garbage".to_vec(), 2 => b"d4:name1:ne".to_vec(), 3 => meta(16384 + 9, false), _ => meta(2 * 16384, false) };
            let n = m.len() as u64;
            start(m, n, 2);
            if param("mode", 0) == 0 {
                let got = manager::get_info(&st().hash, "10.0.0.1:6881");
                judge_result(got.ok());
            } else {
                // through the torrent: nothing else is used or stored
                env::files_on();
                let t = TorrentActor::new(st().hash.clone()).start();
                t.do_send(PeerFound { peer: PeerEndpoint::from_bytes(&[10, 0, 0, 1, 0x1a, 0xe1]).remove(0) });
                t.step();
                let got = t.0.workers.borrow()[0].info.clone();
                let file = ::std::format!("./downloads/{}", urlencoding::encode_binary(&st().hash));
                let files: usize = env::fs().nodes.iter().filter(|n| !n.dir).count();
                // another torrent, whose only peer has nothing to say, gets nothing out of that
                let mut h = st().hash.clone();
                let k = [0, 9, 19][choose("other at", 3)];
                let b = u8("other");
                assume(b != h[k]);
                h[k] = b;
                env::net().on_connect = refuse;
                let o = TorrentActor::new(h).start();
                o.do_send(PeerFound { peer: PeerEndpoint::from_bytes(&[10, 0, 0, 2, 0x1a, 0xe1]).remove(0) });
                o.step();
                check(o.0.workers.borrow()[0].info.is_none(), "a torrent takes the info of another one");
                match &got {
                    Some(i) => { check(files == 1, "not exactly one file is stored"); match Info::from_file(&file) { Ok(j) => check(*i == j, "other info is stored"), Err(_) => fail("info is not stored") } }
                    None => check(files == 0, "info is stored that is not accepted"),
                }
                judge_result(got);
            }
        }
        // sizes and ids: short pieces, put together in order
        2 => {
            let id = range("id", 1, 255) as u8;
            let k = choose("pieces", param("pieces", 3) as usize) as u64 + 1;
            let size = match choose("size", 3) { 0 => 16384 * k, 1 => 16384 * (k - 1) + 1, _ => 16384 * k - 1 };
            start(meta(0, false), size, id);
            s().answer = cut;
            let got = manager::get_info(&st().hash, "10.0.0.1:6881").ok();
            check(st().asked == k, "not every metadata piece is requested");
            // the pieces in order are the metadata
            check(got.is_some() && got == expected(), "the metadata is not the pieces put together in order");
            reach("put together");
            if k > 1 { reach("several pieces") }
        }
        // metadata of many pieces
        4 => {
            let k = [5usize, 17, 33, 65, param("many", 130) as usize][choose("pieces", param("sizes", 5) as usize)];
            let n = 16384 / 20 * k;
            let mut m = b"d6:lengthi".to_vec();
            num(&mut m, n as u64);
            m.extend_from_slice(b"e4:name1:n12:piece lengthi1e6:pieces");
            num(&mut m, 20 * n as u64);
            m.push(b':');
            m.extend((0..20 * n).map(|i| (i / 20 % 251) as u8));
            m.push(b'e');
            let size = m.len() as u64;
            start(m, size, range("id", 1, 255) as u8);
            let got = manager::get_info(&st().hash, "10.0.0.1:6881").ok();
            check(st().asked == (size + 16383) / 16384, "not every metadata piece is requested");
            check(got.is_some() && got == expected(), "the metadata is not the pieces put together in order");
            reach("put together");
        }
        // no metadata extension, or sizes that never come
        _ => {
            let how = choose("how", 6);
            start(meta(0, false), [63, 16384, u64::MAX, 1 << 40][choose("size", 4)], if how == 0 { 0 } else { 3 });
            s().greet = odd_ready;
            s().answer = stop;
            unsafe { HOW = how }
            let t = env::net().now;
            check(manager::get_info(&st().hash, "10.0.0.1:6881").is_err(), "metadata is made up");
            check(env::net().now - t < 300_000_000_000, "minutes of waiting for a peer that has no metadata");
            if st().asked == 0 { reach("not asked") } else { reach("no metadata") }
        }
    }
}
static mut HOW: usize = 0;
fn odd_ready(c: &mut Conn) {
    let h = s().hash.clone();
    say(c, &handshake(&h), 0, Some(Mark::Greeting));
    say(c, &msg(1, &[]), 0, Some(Mark::Unchoke));
    let mut p = vec![0u8];
    p.extend_from_slice(match unsafe { HOW } { 0 => &b"d1:md11:ut_metadatai0e"[..], 1 => b"d1:md6:ut_pexi3e", 2 => b"d1:md11:ut_metadata1:3e", 3 => b"d1:md11:ut_metadatai259e", _ => b"d1:md11:ut_metadatai3e6:ut_pexi1e" });
    p.extend_from_slice(b"e13:metadata_sizei");
    num(&mut p, st().size);
    p.extend_from_slice(b"ee");
    say(c, &msg(20, &p), 0, Some(Mark::Size));
}
fn stop(c: &mut Conn, r: &Req) {
    check(unsafe { HOW } > 3, "metadata is requested from a peer that does not offer it");
    let n = judge(r);
    if n > 1 { return }
    if unsafe { HOW } == 4 { let m = data(2, n, 0, &[]); say(c, &m, choose("late", 2) as u32, None) } else { let m = data(1, n, 100, &[1; 9]); say(c, &m, 0, None) }
}
/// the metadata in as many pieces as announced, cut anywhere
fn cut(c: &mut Conn, r: &Req) {
    let n = judge(r);
    let last = n + 1 >= (st().size + 16383) / 16384;
    let from = st().got.len();
    let left = st().meta.len() - from;
    let k = if last { left } else { choose("cut", param("cuts", 12) as usize).min(left) };
    let d = st().meta[from..from + k].to_vec();
    deliver(c, n, &d, 0);
    if bool("late") { if let Some(l) = c.pending.last_mut() { l.delay = 1 } }
}
fn judge_result(got: Option<Info>) {
    match got {
        Some(i) => {
            check(st().got == st().meta, "other metadata than asked for is accepted");
            match expected() { Some(e) => check(i == e, "the info is not that of the metadata"), None => fail("unusable metadata is accepted") }
            reach("accepted")
        }
        None => { check(!st().right || expected().is_none(), "the metadata is refused although every piece was sent"); reach("refused") }
    }
}
