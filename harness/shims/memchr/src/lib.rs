//! Plain loops in place of the vectorised searches.
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> { h.iter().position(|c| *c == a) }
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> { h.iter().position(|c| *c == a || *c == b) }
pub fn memchr3(a: u8, b: u8, d: u8, h: &[u8]) -> Option<usize> { h.iter().position(|c| *c == a || *c == b || *c == d) }
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> { h.iter().rposition(|c| *c == a) }
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> { h.iter().rposition(|c| *c == a || *c == b) }
pub fn memchr_iter<'h>(a: u8, h: &'h [u8]) -> impl Iterator<Item = usize> + 'h { h.iter().enumerate().filter(move |e| *e.1 == a).map(|e| e.0) }
pub mod memmem { pub fn find(h: &[u8], n: &[u8]) -> Option<usize> { if n.is_empty() { return Some(0); } h.windows(n.len()).position(|w| w == n) } }
