//! SHA-1 as an injective uninterpreted function: equal inputs give equal 20-byte outputs,
//! different inputs give different outputs, and nothing else is assumed about the outputs.
use symapi::Global;
pub struct Entry { pub input: Vec<u8>, pub output: [u8; 20] }
pub static TABLE: Global<Vec<Entry>> = Global::new();
pub fn table() -> &'static mut Vec<Entry> { if TABLE.opt().is_none() { TABLE.set(Vec::new()) } TABLE.get() }
/// record that `output` is the digest of `input`
pub fn define(input: &[u8], output: [u8; 20]) { table().push(Entry { input: input.to_vec(), output }) }
pub fn hash(input: &[u8]) -> [u8; 20] {
    let t = table();
    for e in t.iter() { if e.input.len() == input.len() && e.input == input { return e.output; } }
    let mut o = [0u8; 20];
    for b in o.iter_mut() { *b = symapi::u8("sha1"); }
    for e in t.iter() { symapi::assume(e.output != o); }
    t.push(Entry { input: input.to_vec(), output: o });
    o
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Output(pub [u8; 20]);
impl Output { pub fn as_slice(&self) -> &[u8] { &self.0 } }
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Output> for [u8; 20] { fn from(o: Output) -> Self { o.0 } }
impl PartialEq<[u8]> for Output { fn eq(&self, o: &[u8]) -> bool { self.0 == *o } }
impl IntoIterator for Output { type Item = u8; type IntoIter = std::array::IntoIter<u8, 20>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
#[derive(Clone, Default)]
pub struct Sha1 { buf: Vec<u8> }
pub type Sha1Core = Sha1;
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self { self.update(d); self }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self { Self::new().chain_update(d) }
    fn finalize(self) -> Output;
    fn finalize_reset(&mut self) -> Output;
    fn reset(&mut self);
    fn output_size() -> usize { 20 }
    fn digest(d: impl AsRef<[u8]>) -> Output { Self::new().chain_update(d).finalize() }
}
impl Digest for Sha1 {
    fn new() -> Self { Sha1 { buf: vec![] } }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.buf.extend_from_slice(d.as_ref()) }
    fn finalize(self) -> Output { Output(hash(&self.buf)) }
    fn finalize_reset(&mut self) -> Output { Output(hash(&std::mem::take(&mut self.buf))) }
    fn reset(&mut self) { self.buf.clear() }
}
impl std::io::Write for Sha1 { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
pub mod digest { pub use crate::Digest; }
