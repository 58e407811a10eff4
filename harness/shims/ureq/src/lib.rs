//! HTTP client boundary: the harness supplies the server.
use std::time::Duration;
#[derive(Clone, Debug, Default)]
pub struct Seen { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub timeout: Option<Duration> }
pub struct Reply { pub status: u16, pub body: Vec<u8>, pub fail_after: Option<usize> }
/// answer of the server to a request; None is a transport error
pub static SERVER: symapi::Global<Box<dyn FnMut(Seen) -> Option<Reply>>> = symapi::Global::new();
#[derive(Clone, Debug)]
pub struct Request { s: Seen, q: Vec<(String, String)> }
#[derive(Debug)]
pub struct Transport; 
#[derive(Debug)]
pub enum Error { Status(u16, Response), Transport(Transport) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("http error") } }
impl std::error::Error for Error {}
#[derive(Debug)]
pub struct Response { status: u16, body: Vec<u8>, fail_after: Option<usize> }
pub struct Body { b: Vec<u8>, pos: usize, fail_after: Option<usize> }
impl std::io::Read for Body {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let mut n = (self.b.len() - self.pos).min(o.len());
        if let Some(f) = self.fail_after { if self.pos >= f { return Err(std::io::Error::from(std::io::ErrorKind::TimedOut)); } n = n.min(f - self.pos); }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Response {
    pub fn status(&self) -> u16 { self.status }
    pub fn status_text(&self) -> &str { "" }
    pub fn header(&self, _n: &str) -> Option<&str> { None }
    pub fn into_reader(self) -> Box<dyn std::io::Read + Send + Sync + 'static> { Box::new(Body { b: self.body, pos: 0, fail_after: self.fail_after }) }
    pub fn into_string(self) -> std::io::Result<String> { let mut v = vec![]; std::io::Read::read_to_end(&mut self.into_reader(), &mut v)?; Ok(String::from_utf8_lossy(&v).into_owned()) }
}
impl Request {
    pub fn timeout(mut self, d: Duration) -> Self { self.s.timeout = Some(d); self }
    pub fn set(mut self, h: &str, v: &str) -> Self { self.s.headers.push((h.into(), v.into())); self }
    pub fn query(mut self, k: &str, v: &str) -> Self { self.q.push((k.into(), v.into())); self }
    pub fn url(&self) -> &str { &self.s.url }
    pub fn call(mut self) -> Result<Response, Error> {
        if !self.q.is_empty() { let mut u = match url::Url::parse(&self.s.url) { Ok(u) => u, Err(_) => return Err(Error::Transport(Transport)) }; for (k, v) in &self.q { u.query_pairs_mut().append_pair(k, v); } self.s.url = u.as_str().to_string(); }
        match (SERVER.get())(self.s) {
            None => Err(Error::Transport(Transport)),
            Some(r) => { let p = Response { status: r.status, body: r.body, fail_after: r.fail_after }; if r.status >= 400 { Err(Error::Status(r.status, p)) } else { Ok(p) } }
        }
    }
    pub fn send_bytes(self, _b: &[u8]) -> Result<Response, Error> { self.call() }
}
pub fn request(m: &str, u: &str) -> Request { Request { s: Seen { method: m.into(), url: u.into(), ..Default::default() }, q: vec![] } }
pub fn get(u: &str) -> Request { request("GET", u) }
pub fn post(u: &str) -> Request { request("POST", u) }
#[derive(Clone, Debug, Default)] pub struct Agent { t: Option<Duration> }
impl Agent { pub fn new() -> Self { Agent { t: None } } pub fn get(&self, u: &str) -> Request { let mut r = get(u); r.s.timeout = self.t; r } }
pub fn agent() -> Agent { Agent::new() }
#[derive(Default)] pub struct AgentBuilder { t: Option<Duration> }
impl AgentBuilder { pub fn new() -> Self { Self::default() } pub fn timeout(mut self, d: Duration) -> Self { self.t = Some(d); self } pub fn timeout_connect(self, _d: Duration) -> Self { self } pub fn timeout_read(mut self, d: Duration) -> Self { self.t = Some(d); self } pub fn timeout_write(self, _d: Duration) -> Self { self } pub fn build(self) -> Agent { Agent { t: self.t } } }
