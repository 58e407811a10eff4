//! C07: messages of any content.
use super::*;
use super::bref::{self, P, V};
use crate::messages::{ContentType, Message};
fn get<'a>(d: &'a [(Vec<u8>, V)], k: &str) -> Option<&'a V> { d.iter().find(|e| e.0 == k.as_bytes()).map(|e| &e.1) }
fn int(d: &[(Vec<u8>, V)], k: &str) -> Option<u64> { match get(d, k) { Some(V::I(n)) => Some(*n), _ => None } }
/// one message, compared with what the wire format says
fn one(id: u8, body: Vec<u8>) {
    let len = body.len() as u32 + 1;
    let r = Message::new_raw(body.clone(), len, id);
    let m = match r {
        Err(_) => {
            let ok = match id {
                6 | 7 => body.len() < 8,
                19 => body.len() != 68 || &body[..20] != b"\x13BitTorrent protocol",
                20 => body.is_empty() || !matches!(bref::parse(&body[1..]), P::Ok(V::D(_), _)),
                _ => false,
            };
            check(ok, "a well-formed message is rejected");
            reach("rejected");
            return;
        }
        Ok(m) => m,
    };
    check(m.get_id() == id, "identifier changed");
    let data = m.get_content_data();
    check(m.is_request_message() == (id == 6 || id == 7), "block message not recognised as such");
    match id {
        5 => { check(data == body, "bitfield bytes changed"); reach("bitfield") }
        6 | 7 => { check(body.len() >= 8, "short block message accepted"); check(data == body[8..], "block payload changed"); reach("block") }
        19 => {
            check(body.len() == 68, "handshake of another size accepted");
            check(&body[..20] == b"\x13BitTorrent protocol", "handshake of another protocol accepted");
            match m.get_content() {
                ContentType::Handshake(h) => { check(h.get_info_hash() == &body[28..48], "info-hash of the handshake changed"); check(h.as_bytes() == body, "handshake fields changed") }
                _ => fail("handshake not recognised"),
            }
            reach("handshake")
        }
        20 => {
            check(!body.is_empty(), "empty extension message accepted");
            let e = match m.get_content() { ContentType::Extension(e) => e, _ => fail("extension message not recognised") };
            match bref::parse(&body[1..]) {
                P::Ok(V::D(d), n) => {
                    check(e.get_data() == &body[1 + n..], "data after the dictionary changed");
                    check(data == &body[1 + n..], "message data changed");
                    check(e.get_metadata_size().map(|n| n as u64) == int(&d, "metadata_size"), "metadata size changed");
                    check(e.is_handshake() == int(&d, "metadata_size").is_some(), "extension handshake misjudged");
                    check(e.is_data() == (int(&d, "msg_type") == Some(1)), "message type misjudged");
                    check(m.is_extension_data_message() == e.is_data(), "message type misjudged");
                    let t = e.get_extensions();
                    let mut want: Vec<(&Vec<u8>, u64)> = vec![];
                    if let Some(V::D(x)) = get(&d, "m") { for (k, v) in x { if let V::I(n) = v { if *n <= 255 { want.push((k, *n)) } } } }
                    check(t.len() == want.len(), "extension table changed");
                    for (k, n) in &want { match t.get(::std::str::from_utf8(k).unwrap()) { Some(v) => check(*v as u64 == *n, "extension id changed"), None => fail("extension left out") } }
                    reach("extension");
                    if !want.is_empty() { reach("extension table") }
                    if e.is_data() { reach("extension data") }
                }
                P::Ok(_, _) => fail("extension message without a dictionary accepted"),
                P::Bad | P::NoValue => fail("undecodable extension message accepted"),
                P::Lenient(_) => {}
            }
        }
        _ => { check(data.is_empty(), "data out of nothing"); reach("plain") }
    }
}
fn num(b: &mut Vec<u8>, max: usize) { b.push(b'i'); for _ in 0..1 + choose("digits", max) { b.push(range("digit", b'0' as u64, b'9' as u64) as u8) } b.push(b'e') }
pub fn run() {
    match param("mode", 0) {
        // arbitrary identifier and short arbitrary payload
        0 => { let id = u8("id"); let n = choose("len", param("len", 5) as usize + 1); if bool("known id") { assume(id < 24); one(concretize(id as u64) as u8, bytes("body", n)) } else { assume(id >= 24); one(id, bytes("body", n)) } }
        // block messages and bitfields around their minimum size
        1 => { let id = [5u8, 6, 7][choose("id", 3)]; let n = choose("len", param("len", 20) as usize); one(id, bytes("body", n)) }
        // handshakes
        2 => {
            let n = match choose("size", 6) { 0 => 0, 1 => 1, 2 => 19, 3 => 67, 4 => 68, _ => 69 };
            let mut b: Vec<u8> = vec![];
            if bool("protocol") { b.extend_from_slice(b"\x13BitTorrent protocol"); let at = choose("at", 21); if at < 20 { b[at] = u8("body") } }
            while b.len() < n { b.push(u8("body")) }
            b.truncate(n);
            one(19, b)
        }
        // extension messages: entries present or absent, of the right type or another, then data
        3 => {
            let mut b = vec![u8("ext id"), b'd'];
            match choose("m", 3) {
                0 => {}
                1 => {
                    b.extend_from_slice(b"1:md");
                    match choose("first", 4) { 0 => {} 1 => { b.extend_from_slice(b"1:x"); num(&mut b, 3) } 2 => { b.extend_from_slice(b"1:x1:"); b.push(u8("byte")) } _ => { b.extend_from_slice(b"1:xi18446744073709551361e") } }
                    if bool("ut") { b.extend_from_slice(b"11:ut_metadata"); num(&mut b, 2) }
                    b.push(b'e');
                }
                _ => { b.extend_from_slice(b"1:m"); num(&mut b, 1) }
            }
            match choose("size", 3) { 0 => {} 1 => { b.extend_from_slice(b"13:metadata_size"); num(&mut b, 2) } _ => b.extend_from_slice(b"13:metadata_size1:7") }
            match choose("type", 3) { 0 => {} 1 => { b.extend_from_slice(b"8:msg_type"); num(&mut b, 1) } _ => b.extend_from_slice(b"8:msg_typele") }
            match choose("piece", 2) { 0 => {} _ => { b.extend_from_slice(b"5:piece"); num(&mut b, 1) } }
            if bool("end") { b.push(b'e') }
            for _ in 0..choose("data", 3) { b.push(u8("data")) }
            one(20, b)
        }
        // large payloads, arbitrary at one place
        5 => {
            let kind = choose("kind", 4);
            let (mut n, mut fill, mut at) = (0, 0, 0);
            if kind < 2 {
                n = [256usize, 1000, 16384, 16392, 16393, 65536, 131072 + 8][choose("size", 7)];
                fill = [0u8, 7, 255][choose("fill", 3)];
                at = [8, n - 1, n / 2, 0usize, 255][choose("at", if n > 20000 { 2 } else { 5 })];
            }
            match kind {
                0 => { let mut b = vec![fill; n]; b[at] = u8("byte"); one([5u8, 7, 6, 4, 20][choose("id", 5)], b) }
                1 => { let mut b = b"\x01d8:msg_typei1e5:piecei0e10:total_sizei40000ee".to_vec(); let k = b.len(); b.resize(k + n, fill); b[k + at] = u8("byte"); one(20, b) }
                // many extensions, long names
                2 => {
                    let mut b = b"\x00d1:md".to_vec();
                    let k = [20usize, 255, 256, 300][choose("extensions", 4)];
                    for i in 0..k { b.extend_from_slice(::std::format!("4:x{:03}i{}e", i, i * 7 % 300).as_bytes()) }
                    b.extend_from_slice(b"ee");
                    let l = b.len();
                    if bool("odd") { b[[5, l / 2, l - 3][choose("byte at", 3)]] = u8("byte") }
                    one(20, b)
                }
                // metadata sizes of every magnitude
                _ => {
                    let mut b = b"\x00d1:md11:ut_metadatai2ee13:metadata_sizei".to_vec();
                    let k = choose("magnitude", 64);
                    let v = (1u64 << k) - 1 + choose("plus", 3) as u64;
                    bref::put_num(v, &mut b);
                    b.extend_from_slice(b"ee");
                    one(20, b)
                }
            }
        }
        // one arbitrary byte anywhere in an extension handshake
        _ => {
            let mut b = b"\x00d1:md11:ut_metadatai3e6:ut_pexi1ee13:metadata_sizei319e8:msg_typei1ee12".to_vec();
            let at = choose("at", b.len());
            b[at] = u8("byte");
            one(20, b)
        }
    }
}
