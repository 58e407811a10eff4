//! `std` as seen by the code under test: everything is the real standard library except
//! `HashMap`/`HashSet`, whose hashing (SipHash over symbolic keys) is replaced by an association
//! list.  The iteration order is arbitrary: when `order::symbolic(true)` was called, every
//! permutation is explored.
pub use ::std::*;
pub mod order {
    static mut ON: bool = false;
    pub fn symbolic(on: bool) { unsafe { ON = on } }
    /// iteration order of a map with n entries
    pub fn perm(n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        if n < 2 || unsafe { !ON } { return left; }
        let mut r = Vec::with_capacity(n);
        while !left.is_empty() { let i = symapi::choose("map order", left.len()); r.push(left.remove(i)); }
        r
    }
}
pub mod collections {
    pub use ::std::collections::*;
    pub use crate::map::{HashMap, HashSet};
    pub mod hash_map { pub use crate::map::{Entry, HashMap, OccupiedEntry, VacantEntry}; }
    pub mod hash_set { pub use crate::map::HashSet; }
}
pub mod map;
