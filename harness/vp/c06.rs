//! C06: magnet links are parsed exactly or refused.
use super::*;
use crate::torrent::magnet::parse_magnet;
const PRE: &[u8] = b"magnet:?xt=urn:btih:";
fn hex(c: u8) -> Option<u64> { if c >= b'0' && c <= b'9' { Some((c - b'0') as u64) } else if c >= b'a' && c <= b'f' { Some((c - b'a') as u64 + 10) } else if c >= b'A' && c <= b'F' { Some((c - b'A') as u64 + 10) } else { None } }
fn b32(c: u8) -> Option<u64> { if c >= b'A' && c <= b'Z' { Some((c - b'A') as u64) } else if c >= b'a' && c <= b'z' { Some((c - b'a') as u64) } else if c >= b'2' && c <= b'7' { Some((c - b'2') as u64 + 26) } else { None } }
/// groups of n digits of `bits` bits each, as bytes
fn group(h: &[u8], n: usize, bits: u64, f: fn(u8) -> Option<u64>) -> Option<Vec<u8>> {
    let mut out = vec![];
    for g in h.chunks(n) {
        let mut v = 0u64;
        for c in g { v = (v << bits) | f(*c)? }
        let k = n as u64 * bits / 8;
        for i in 0..k { out.push((v >> (8 * (k - 1 - i))) as u8) }
    }
    Some(out)
}
/// the info-hash a link denotes; the flag tells of links that may be refused (lower-case base32)
pub fn want(m: &[u8]) -> (Option<Vec<u8>>, bool) {
    if m.len() < PRE.len() || &m[..PRE.len()] != PRE { return (None, false); }
    let mut h = &m[PRE.len()..];
    for i in 0..h.len() { if h[i] == b'&' { h = &h[..i]; break; } }
    if h.len() == 40 { return (group(h, 2, 4, hex), false); }
    if h.len() == 32 { return (group(h, 8, 5, b32), h.iter().any(|c| *c >= b'a' && *c <= b'z')); }
    (None, false)
}
fn judge(m: Vec<u8>) {
    let (w, may) = want(&m);
    let hexa = m.len() >= 60;
    match parse_magnet(m) {
        Ok(g) => match w { None => fail("a malformed link is accepted"), Some(w) => { check(g.get_info_hash() == w, "wrong info-hash"); reach(if hexa { "parsed" } else { "parsed base32" }) } },
        Err(_) => { check(w.is_none() || may, "a valid link is refused"); reach("refused") }
    }
}
pub const HEX: &[u8] = b"A6e449c2281E62edbf8cdb447413ca288cF0e568";
pub const B32: &[u8] = b"G27L4RSWJP5UK2XU6U35LCRHEEV57INR";
pub fn link(h: &[u8], tail: &[u8]) -> Vec<u8> { let mut m = PRE.to_vec(); m.extend_from_slice(h); m.extend_from_slice(tail); m }
pub fn run() {
    match param("mode", 0) {
        // every short input, and every length of a link
        0 => {
            if bool("short") { let n = choose("len", param("len", 3) as usize + 1); judge(bytes("byte", n)) }
            else {
                let n = choose("len", 80);
                let mut m = PRE.to_vec();
                for i in 0..80 { m.push(if bool_at(i, n) { b'A' } else { HEX[i % 40] }) }
                m.truncate(n);
                if n > 0 && bool("last") { m[n - 1] = u8("byte") }
                judge(m)
            }
        }
        // hexadecimal digits: `k` neighbouring arbitrary bytes anywhere in them, nothing or parameters behind
        1 => {
            let k = param("k", 2) as usize;
            let at = choose("at", 41 - k);
            let mut h = HEX.to_vec();
            for i in 0..k { h[at + i] = u8("digit") }
            let t: &[u8] = [&b""[..], b"&", b"&dn=x&tr=udp%3A%2F%2Fa", b"a", b"A&dn=x"][choose("tail", 5)];
            judge(link(&h, t))
        }
        2 => {
            let k = param("k", 2) as usize;
            let at = choose("at", 33 - k);
            let mut h = B32.to_vec();
            for i in 0..k { h[at + i] = u8("digit") }
            let t: &[u8] = [&b""[..], b"&", b"&dn=x&tr=udp%3A%2F%2Fa", b"A", b"A&dn=x"][choose("tail", 5)];
            judge(link(&h, t))
        }
        // one arbitrary byte in the prefix, or arbitrary bytes behind the digits
        3 => {
            let h = if bool("base32") { B32 } else { HEX };
            if bool("prefix") { let mut m = link(h, b""); m[choose("at", 20)] = u8("byte"); judge(m) }
            else { let n = choose("more", 4); judge(link(h, &bytes("byte", n))) }
        }
        // long parameters behind the digits, and far too many digits
        5 => {
            let mut h = if bool("base32") { B32.to_vec() } else { HEX.to_vec() };
            h[[0, 15, 31][choose("at", 3)]] = u8("digit");
            let n = [100usize, 255, 256, 1000, 5000, 70000][choose("size", 6)];
            let mut t: Vec<u8> = match choose("tail", 4) { 0 => b"&dn=".to_vec(), 1 => b"&tr=udp%3A%2F%2Fa&xt=urn:btih:".to_vec(), 2 => b"A".to_vec(), _ => b"&&&".to_vec() };
            let f = [b'A', b'&', 0xc3, b'%'][choose("fill", 4)];
            t.resize(n, f);
            if bool("odd") { t[n - 1] = u8("byte") }
            judge(link(&h, &t))
        }
        // `k` arbitrary characters in one link, spread over the digits
        _ => {
            let k = param("k", 3) as usize;
            let mut h = if bool("base32") { B32.to_vec() } else { HEX.to_vec() };
            let step = h.len() / k;
            let at = choose("at", step);
            for i in 0..k { h[at + i * step] = u8("digit") }
            judge(link(&h, b"&dn=x"))
        }
    }
}
fn bool_at(i: usize, n: usize) -> bool { (i + n) % 3 == 0 }
