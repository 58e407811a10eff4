//! UDP socket and timer boundary: the harness supplies the network.
pub mod model {
    use std::io;
    pub enum Recv { Data(Vec<u8>, std::net::SocketAddr), Error, Never }
    pub trait Udp {
        fn bind(&mut self) -> io::Result<()> { Ok(()) }
        fn connect(&mut self, _to: &str) -> io::Result<()> { Ok(()) }
        fn send(&mut self, b: &[u8], to: Option<&str>) -> io::Result<usize>;
        fn recv(&mut self) -> Recv;
        fn timeout(&mut self, _d: std::time::Duration) {}
    }
    pub static NET: symapi::Global<Box<dyn Udp>> = symapi::Global::new();
    /// run a future to completion; None when it waits for ever
    pub fn block_on<F: std::future::Future>(f: F) -> Option<F::Output> {
        let mut f = Box::pin(f);
        let w = std::task::Waker::noop();
        let mut cx = std::task::Context::from_waker(w);
        match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => Some(v), std::task::Poll::Pending => None }
    }
}
pub mod net {
    use crate::model::*;
    use std::io;
    use std::net::SocketAddr;
    pub trait ToSocketAddrs { fn text(&self) -> String; }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T { fn text(&self) -> String { (**self).text() } }
    impl ToSocketAddrs for str { fn text(&self) -> String { self.to_string() } }
    impl ToSocketAddrs for String { fn text(&self) -> String { self.clone() } }
    impl ToSocketAddrs for SocketAddr { fn text(&self) -> String { self.to_string() } }
    impl ToSocketAddrs for (&str, u16) { fn text(&self) -> String { format!("{}:{}", self.0, self.1) } }
    impl ToSocketAddrs for (String, u16) { fn text(&self) -> String { format!("{}:{}", self.0, self.1) } }
    pub async fn lookup_host<A: ToSocketAddrs>(a: A) -> io::Result<std::vec::IntoIter<SocketAddr>> { match a.text().parse() { Ok(s) => Ok(vec![s].into_iter()), Err(_) => Err(io::Error::from(io::ErrorKind::InvalidInput)) } }
    #[derive(Debug)]
    pub struct UdpSocket(());
    impl UdpSocket {
        pub async fn bind<A: ToSocketAddrs>(_a: A) -> io::Result<UdpSocket> { NET.get().bind()?; Ok(UdpSocket(())) }
        pub async fn connect<A: ToSocketAddrs>(&self, a: A) -> io::Result<()> { NET.get().connect(&a.text()) }
        pub async fn send(&self, b: &[u8]) -> io::Result<usize> { NET.get().send(b, None) }
        pub async fn send_to<A: ToSocketAddrs>(&self, b: &[u8], a: A) -> io::Result<usize> { NET.get().send(b, Some(&a.text())) }
        pub async fn writable(&self) -> io::Result<()> { Ok(()) }
        pub async fn recv_from(&self, o: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
            match NET.get().recv() {
                Recv::Data(d, a) => { let n = d.len().min(o.len()); o[..n].copy_from_slice(&d[..n]); Ok((n, a)) }
                Recv::Error => Err(io::Error::from(io::ErrorKind::ConnectionRefused)),
                Recv::Never => std::future::pending().await,
            }
        }
        pub async fn recv(&self, o: &mut [u8]) -> io::Result<usize> { Ok(self.recv_from(o).await?.0) }
        pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok("0.0.0.0:1".parse().unwrap()) }
    }
}
pub mod time {
    pub use std::time::Duration;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub mod error { #[derive(Debug, PartialEq, Eq)] pub struct Elapsed(pub(crate) ()); impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } } impl std::error::Error for Elapsed {} }
    pub struct Timeout<F>(Pin<Box<F>>, Duration);
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            match self.0.as_mut().poll(cx) { Poll::Ready(v) => Poll::Ready(Ok(v)), Poll::Pending => { let d = self.1; if let Some(n) = crate::model::NET.opt() { n.timeout(d) } Poll::Ready(Err(error::Elapsed(()))) } }
        }
    }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> { Timeout(Box::pin(f), d) }
    pub async fn sleep(_d: Duration) {}
    pub use std::time::Instant;
}
pub mod task {
    pub async fn yield_now() {}
    pub struct JoinError; 
    impl std::fmt::Debug for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinError") } }
    pub async fn spawn_blocking<R, F: FnOnce() -> R>(f: F) -> Result<R, JoinError> { Ok(f()) }
}
