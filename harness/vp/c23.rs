//! C23: bitfields are decoded bit by bit.
use super::*;
use crate::messages::{ContentType, Message};
pub fn bit(b: &[u8], i: usize) -> bool { (b[i / 8] / (1u8 << (7 - i % 8))) % 2 == 1 }
fn decode(b: &[u8]) -> Vec<bool> {
    match Message::new_raw(b.to_vec(), b.len() as u32, 5) {
        Ok(m) => match m.get_content() { ContentType::Bitfield(f) => { check(f.get_bitfield() == b, "other bytes kept"); f.get_bitfield_as_bit_vector() } _ => fail("bitfield message not recognised") },
        Err(_) => fail("bitfield message refused"),
    }
}
pub fn run() {
    let b = match param("mode", 0) {
        0 => { let n = choose("len", param("len", 3) as usize + 1); bytes("byte", n) }
        2 => {
            // a very long one, arbitrary at one of a few places
            let n = [256, 257, 2049, param("len", 20000) as usize][choose("len", 4)];
            let mut b: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
            let at = [0, 255, n / 2, n - 1][choose("at", 4)];
            // two of its bits
            b[at] = u8("byte");
            assume(b[at] & 0xde == 0x48);
            b
        }
        _ => {
            // a long bitfield, arbitrary at one position
            let n = 1 + choose("len", param("len", 40) as usize);
            let mut b: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
            let at = choose("at", n);
            b[at] = u8("byte");
            b
        }
    };
    let v = decode(&b);
    check(v.len() == 8 * b.len(), "not one entry for each bit");
    for i in 0..v.len() { check(v[i] == bit(&b, i), "wrong bit") }
    reach("decoded");
    if b.is_empty() { reach("empty") }
}
