//! C01: decoding any byte string terminates with a value or an error.
use super::*;
use super::bref;
use crate::bencode::decode::Decoder;
fn dec(b: Vec<u8>) {
    let n = b.len();
    let mut d = Decoder::init(b);
    match d.decode() { Ok(v) => { reach("value"); drop(v) } Err(_) => reach("error") }
    let used = d.get_total_parsed_bytes();
    check(used <= n, "decoder claims to have parsed more bytes than the input has");
}
pub fn run() {
    match param("mode", 0) {
        0 => { let n = choose("length", param("len", 7) as usize + 1); dec(bytes("input", n)) }
        1 => {
            // nesting: n levels of lists or dictionaries (or both in turn), then any bytes
            let n = if bool("deep") { param("deep", 200000) as usize } else { param("shallow", 40) as usize };
            let kind = choose("kind", 3);
            let mut b = Vec::with_capacity(n * 4 + 8);
            for i in 0..n { if kind == 0 || kind == 2 && i % 2 == 0 { b.push(b'l') } else { b.extend_from_slice(b"d1:a") } }
            for x in bytes("tail", param("tail", 2) as usize) { b.push(x) }
            if bool("closed") { for _ in 0..n { b.push(b'e') } }
            dec(b)
        }
        2 => {
            // length prefixes and integers of any number of digits, inside and outside of containers
            let mut b = vec![];
            match choose("where", 4) { 0 => {}, 1 => b.push(b'i'), 2 => b.push(b'l'), _ => b.push(b'd') }
            bref::digits(&mut b);
            if bool("colon") { b.push(b':') }
            for x in bytes("tail", 2) { b.push(x) }
            dec(b)
        }
        4 => {
            // large values, whole, cut, followed by more, or with one byte replaced
            let mut b = bref::enc(&bref::large(param("n", 300) as usize));
            let n = b.len();
            match choose("how", 5) {
                0 => {}
                1 => b.truncate([1, n / 3, n / 2, n - 2, n - 1][choose("cut", 5)]),
                2 => b.push(u8("byte")),
                3 => { let k = if n < 3000 { [0, 1, n / 3, n / 2, n - 3, n - 2, n - 1][choose("place", 7)] } else { [0, n / 2, n - 2, n - 1][choose("place", 4)] }; b[k] = u8("byte") }
                // with no end
                _ => { let k = [0u8, b'l', b'd', b'1', b'i'][choose("tail", 5)]; b.truncate(n - 1); for _ in 0..1000 { b.push(k) } }
            }
            dec(b)
        }
        _ => {
            // a complete value followed by a second decode of what remains
            let n = choose("length", param("len", 5) as usize + 1);
            let mut d = Decoder::init(bytes("input", n));
            let _ = d.decode();
            let _ = d.decode();
            let _ = d.decode();
            check(d.get_total_parsed_bytes() <= n, "decoder claims to have parsed more bytes than the input has");
            reach("again")
        }
    }
}
