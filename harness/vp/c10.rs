//! C10: no requests before a verified handshake and an unchoke.
use super::*;
use super::env::{self, Conn, End, Outcome, HOLD};
use super::sess::{self, ext, four, handshake, msg, s, say, Mark};
use crate::peer::manager;
use crate::torrent::info::Info;
fn hash() -> Vec<u8> { s().hash.clone() }
fn greet(c: &mut Conn) {
    let when = || [0, 1, 3, HOLD][choose("greeting after", param("delays", 2) as usize)];
    let d = when();
    match choose("greeting", param("greetings", 7) as usize) {
        // the right one; or one in which a byte is another
        0 => { let h = hash(); say(c, &handshake(&h), d, Some(Mark::Greeting)) }
        1 => { let mut h = hash(); let k = [0, 7, 19][choose("at", 3)]; let b = u8("byte"); assume(b != h[k]); h[k] = b; say(c, &handshake(&h), d, Some(Mark::OtherGreeting)) }
        // all zero bytes, or none at all
        2 => { let h = vec![0; 20]; if hash() == h { return } say(c, &handshake(&h), d, Some(Mark::OtherGreeting)) }
        3 => {}
        // something else first
        4 => { let m = [msg(1, &[]), msg(5, &[255]), ext(Some(2), Some(31235)), vec![0; 4]]; say(c, &m[choose("first", 4)], d, None); let h = hash(); say(c, &handshake(&h), 0, Some(Mark::Greeting)) }
        // cut short
        5 => { let h = hash(); let n = [1, 20, 48, 67][choose("cut", 4)]; say(c, &handshake(&h)[..n], d, None); c.end = if bool("end") { End::Fin } else { End::Open }; return }
        // of another protocol: not a handshake
        _ => { let h = hash(); let mut g = handshake(&h); let k = [1, 10, 19][choose("at", 3)]; let b = u8("byte"); assume(b != g[k]); g[k] = b; say(c, &g, d, None) }
    }
    let n = choose("messages", param("msgs", 3) as usize + 1);
    for _ in 0..n {
        let d = [0, 1, HOLD][choose("message after", param("waits", 1) as usize)];
        match if param("few", 0) == 1 { [0, 1, 2, 5][choose("message", 4)] } else { choose("message", 9) } {
            0 => say(c, &msg(1, &[]), d, Some(Mark::Unchoke)),
            1 => say(c, &msg(0, &[]), d, Some(Mark::Choke)),
            2 => say(c, &ext(Some(2), Some(31235)), d, Some(Mark::Size)),
            3 => say(c, &ext(Some(2), None), d, None),
            4 => say(c, &ext(Some(2), Some(0)), d, None),
            5 => say(c, &msg(5, &[255]), d, None),
            6 => say(c, &vec![0; 4], d, None),
            7 => say(c, &msg(4, &four(0)), d, None),
            // a block nobody asked for
            _ => say(c, &msg(7, &[0, 0, 0, 0, 0, 0, 0, 0, 1]), d, None),
        }
    }
    if bool("end") { c.end = End::Fin }
}
/// whether the peer, as far as it can ever be heard, lets the client begin
fn ready() -> bool {
    let (mut g, mut u, mut z, mut ever) = (false, false, false, false);
    for (m, _) in &s().marks {
        match m { Mark::Greeting => g = true, Mark::OtherGreeting => g = false, Mark::Choke => u = false, Mark::Unchoke => u = true, Mark::Size => z = true, Mark::NoSize => {} }
        ever |= g && u && z;
    }
    ever
}
fn info() -> Info {
    let mut b = b"d6:lengthi40e4:name1:n12:piece lengthi20e6:pieces40:".to_vec();
    b.extend_from_slice(&[3; 40]);
    b.push(b'e');
    match Info::from_bytes(b) { Ok(i) => i, Err(_) => fail("usable metadata is refused") }
}
pub fn run() {
    let failed = if bool("metadata") {
        sess::start(&bytes("hash", 20));
        s().greet = greet;
        manager::get_info(&hash(), "10.0.0.1:6881").is_err()
    } else {
        let i = info();
        sess::start(&i.compute_info_hash());
        s().greet = greet;
        manager::download("10.0.0.1:6881".to_owned(), &i, choose("piece", 2)).is_err()
    };
    check(env::net().conns.len() == 1 && s().greeted, "the client sends no handshake");
    if !ready() {
        check(failed, "success with a peer that never allowed a request");
        check(s().reqs.is_empty(), "a request to a peer that never allowed it");
        reach("refused");
    } else if s().reqs.is_empty() { reach("not ready in time") } else { reach("requested") }
}
