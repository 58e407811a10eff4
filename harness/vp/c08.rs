//! C08: every message the client sends is well formed.
use super::*;
use super::bref;
use crate::common::mock_stream::MockStream;
use crate::messages::{new_handshake, new_interested, new_metadata, new_request, Message};
use crate::peer::stream::{send_metadata_handshake_request, write_stream, StreamInterface};
use crate::peer::Peer;
fn be(b: &[u8]) -> u64 { let mut v = 0u64; for x in b { v = v * 256 + *x as u64 } v }
/// length prefix, identifier, payload
fn framed(b: &[u8], id: u8, payload: &[u8]) {
    check(b.len() >= 5, "message without a header");
    check(be(&b[..4]) == b.len() as u64 - 4, "length prefix is not the number of bytes that follow");
    check(b[4] == id, "wrong identifier");
    check(&b[5..] == payload, "wrong payload");
}
fn sent(m: Message) -> Vec<u8> {
    // directly, and through a connection
    let b = m.as_bytes();
    let mut s = StreamInterface::Mocked(MockStream::new());
    write_stream(&mut s, &b);
    match &mut s { StreamInterface::Mocked(m) => check(*m.peek_bytes_written() == b, "connection changes the message"), _ => {} }
    b
}
fn four(v: u32) -> [u8; 4] { [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8] }
pub fn run() {
    match choose("message", 5) {
        0 => {
            let (p, o, l) = (u32("piece"), u32("offset"), u32("length"));
            let mut want = vec![];
            for v in [p, o, l] { want.extend_from_slice(&four(v)) }
            framed(&sent(new_request(p, o, l)), 6, &want);
            reach("request")
        }
        1 => { framed(&sent(new_interested()), 2, &[]); reach("interested") }
        2 => {
            let id = u8("ext id");
            let ix = match choose("size", 4) { 3 => { let k = choose("magnitude", 64); (1u64 << k) - 1 + choose("plus", 3) as u64 } 0 => range("index", 0, 99), 1 => range("index", 0, 1200), _ => { let d = choose("power", 20); let mut b: u64 = 1; for _ in 0..d { b = b.saturating_mul(10) } b - 1 + range("index", 0, 1) } };
            let b = sent(new_metadata(id, ix as usize));
            let mut want = vec![id];
            want.extend_from_slice(b"d8:msg_typei0e5:piecei");
            bref::put_num(ix, &mut want);
            want.extend_from_slice(b"ee");
            framed(&b, 20, &want);
            reach("metadata request")
        }
        3 => {
            let h = bytes("hash", 20);
            let mut id = String::new();
            for _ in 0..20 { id.push(range("peer id", 0, 0x7f) as u8 as char) }
            let b = sent(new_handshake(&h, &id));
            check(b.len() == 68, "handshake is not 68 bytes");
            check(&b[..20] == b"\x13BitTorrent protocol", "handshake of another protocol");
            check(b[25] & 0x10 != 0, "extension protocol not advertised");
            check(&b[28..48] == &h[..], "handshake without the info-hash");
            check(&b[48..] == id.as_bytes(), "handshake without the peer id");
            reach("handshake")
        }
        _ => {
            // the extension handshake
            let mut s = StreamInterface::Mocked(MockStream::new());
            check(send_metadata_handshake_request(&mut s).is_ok(), "extension handshake not sent");
            let b = match &mut s { StreamInterface::Mocked(m) => m.peek_bytes_written().clone(), _ => vec![] };
            check(b.len() >= 6, "extension handshake too short");
            check(be(&b[..4]) == b.len() as u64 - 4, "length prefix is not the number of bytes that follow");
            check(b[4] == 20 && b[5] == 0, "extension handshake with a wrong identifier");
            match bref::parse(&b[6..]) {
                bref::P::Ok(bref::V::D(d), n) => {
                    check(n == b.len() - 6, "bytes after the extension handshake");
                    match d.iter().find(|e| e.0 == b"m") {
                        Some((_, bref::V::D(m))) => check(m.iter().any(|e| e.0 == b"ut_metadata" && matches!(e.1, bref::V::I(n) if n > 0 && n < 256)), "metadata extension not offered"),
                        _ => fail("extension handshake without a table"),
                    }
                }
                _ => fail("extension handshake is no dictionary"),
            }
            // a peer hands its own id and the info-hash it was created with to the handshake
            let h = bytes("hash", 20);
            let p = Peer::new(StreamInterface::Nothing(), &h);
            let b = new_handshake(&p.get_info_hash(), &p.get_peer_id()).as_bytes();
            check(b.len() == 68 && &b[28..48] == &h[..], "handshake without the info-hash");
            reach("extension handshake")
        }
    }
}
