//! HTTP server boundary: requests are made by calling the handler function.
pub use actix_web_macros::*;
pub mod http {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct StatusCode(pub u16);
    impl StatusCode {
        pub const OK: StatusCode = StatusCode(200); pub const CREATED: StatusCode = StatusCode(201); pub const ACCEPTED: StatusCode = StatusCode(202); pub const BAD_REQUEST: StatusCode = StatusCode(400); pub const NOT_FOUND: StatusCode = StatusCode(404);
        pub const CONFLICT: StatusCode = StatusCode(409); pub const UNPROCESSABLE_ENTITY: StatusCode = StatusCode(422); pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500); pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
        pub fn as_u16(&self) -> u16 { self.0 }
    }
}
use http::StatusCode;
pub struct HttpResponse { pub status: u16, pub body: Vec<u8> }
pub struct HttpResponseBuilder(u16);
macro_rules! b { ($($n:ident $c:expr),*) => { impl HttpResponse { $(#[allow(non_snake_case)] pub fn $n() -> HttpResponseBuilder { HttpResponseBuilder($c) })* pub fn build(s: StatusCode) -> HttpResponseBuilder { HttpResponseBuilder(s.0) } pub fn new(s: StatusCode) -> HttpResponse { HttpResponse { status: s.0, body: vec![] } } pub fn status(&self) -> StatusCode { StatusCode(self.status) } } } }
b!(Ok 200, Created 201, Accepted 202, NoContent 204, BadRequest 400, Unauthorized 401, Forbidden 403, NotFound 404, Conflict 409, Gone 410, UnsupportedMediaType 415, UnprocessableEntity 422, TooManyRequests 429, InternalServerError 500, NotImplemented 501, ServiceUnavailable 503);
pub trait IntoBody { fn bytes(self) -> Vec<u8>; }
impl IntoBody for &str { fn bytes(self) -> Vec<u8> { self.as_bytes().to_vec() } }
impl IntoBody for String { fn bytes(self) -> Vec<u8> { self.into_bytes() } }
impl IntoBody for Vec<u8> { fn bytes(self) -> Vec<u8> { self } }
impl HttpResponseBuilder { pub fn body<B: IntoBody>(&mut self, b: B) -> HttpResponse { HttpResponse { status: self.0, body: b.bytes() } } pub fn finish(&mut self) -> HttpResponse { HttpResponse { status: self.0, body: vec![] } } pub fn content_type(&mut self, _c: &str) -> &mut Self { self } pub fn status(&mut self, s: StatusCode) -> &mut Self { self.0 = s.0; self } }
impl From<HttpResponseBuilder> for HttpResponse { fn from(mut b: HttpResponseBuilder) -> Self { b.finish() } }
pub trait Responder { fn status(self) -> u16; }
impl Responder for HttpResponse { fn status(self) -> u16 { self.status } }
impl Responder for HttpResponseBuilder { fn status(self) -> u16 { self.0 } }
impl Responder for &str { fn status(self) -> u16 { 200 } }
impl Responder for String { fn status(self) -> u16 { 200 } }
impl<T: Responder> Responder for (T, StatusCode) { fn status(self) -> u16 { self.1 .0 } }
impl<T: Responder, E: Into<Error>> Responder for std::result::Result<T, E> { fn status(self) -> u16 { match self { Ok(t) => t.status(), Err(e) => e.into().0 } } }
pub trait ResponseError: std::fmt::Debug + std::fmt::Display { fn status_code(&self) -> StatusCode { StatusCode(500) } fn error_response(&self) -> HttpResponse { HttpResponse { status: self.status_code().0, body: vec![] } } }
#[derive(Debug)] pub struct Error(pub u16);
impl<T: ResponseError + 'static> From<T> for Error { fn from(t: T) -> Error { Error(t.error_response().status) } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub mod error {
    use super::Error;
    #[allow(non_snake_case)] pub fn ErrorBadRequest<T>(_t: T) -> Error { Error(400) }
    #[allow(non_snake_case)] pub fn ErrorUnprocessableEntity<T>(_t: T) -> Error { Error(422) }
    #[allow(non_snake_case)] pub fn ErrorNotFound<T>(_t: T) -> Error { Error(404) }
    #[allow(non_snake_case)] pub fn ErrorInternalServerError<T>(_t: T) -> Error { Error(500) }
    #[allow(non_snake_case)] pub fn ErrorServiceUnavailable<T>(_t: T) -> Error { Error(503) }
}
pub mod web {
    use std::sync::Arc;
    pub struct Data<T: ?Sized>(Arc<T>);
    impl<T> Data<T> { pub fn new(t: T) -> Self { Data(Arc::new(t)) } pub fn into_inner(self) -> Arc<T> { self.0 } pub fn get_ref(&self) -> &T { &self.0 } }
    impl<T: ?Sized> Clone for Data<T> { fn clone(&self) -> Self { Data(self.0.clone()) } }
    impl<T: ?Sized> std::ops::Deref for Data<T> { type Target = Arc<T>; fn deref(&self) -> &Arc<T> { &self.0 } }
    pub type Bytes = Vec<u8>;
    pub async fn block<R, F: FnOnce() -> R>(f: F) -> std::result::Result<R, ()> { Ok(f()) }
}
pub struct App;
impl App { pub fn new() -> App { App } pub fn app_data<T>(self, _t: T) -> App { App } pub fn service<T>(self, _t: T) -> App { App } pub fn wrap<T>(self, _t: T) -> App { App } }
pub struct HttpServer; pub struct Server;
impl HttpServer { pub fn new<F: Fn() -> App>(_f: F) -> HttpServer { HttpServer } pub fn bind<A>(self, _a: A) -> std::io::Result<HttpServer> { Ok(self) } pub fn workers(self, _n: usize) -> Self { self } pub async fn run(self) -> std::io::Result<()> { Ok(()) } }
pub mod rt { pub use crate::web::block as spawn_blocking; }
