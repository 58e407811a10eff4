//! Actor runtime boundary: mailboxes are plain queues which the harness drains in whatever order
//! it wants to explore; a handler runs atomically, futures it spawns run when it returns.
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as TaskContext, Poll};
use std::time::Duration;

pub use actix_derive::*;

pub trait Message { type Result: 'static; }
impl<M: Message + ?Sized> Message for Box<M> { type Result = M::Result; }
pub trait ActorContext: Sized { fn stop(&mut self); fn terminate(&mut self); }
#[derive(PartialEq, Debug, Clone, Copy)] pub enum Running { Stop, Continue }
pub trait Actor: Sized + 'static {
    type Context: ActorContext;
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn stopping(&mut self, _ctx: &mut Self::Context) -> Running { Running::Stop }
    fn stopped(&mut self, _ctx: &mut Self::Context) {}
    fn start(self) -> Addr<Self> where Self: Actor<Context = Context<Self>> {
        let a = Addr::<Self>::make(vec![], false);
        let mut c = Context { addr: a.clone(), pending: vec![] };
        let mut me = self;
        me.started(&mut c);
        run_pending(&mut me, &mut c);
        a.0.workers.borrow_mut().push(me);
        a
    }
    fn start_default() -> Addr<Self> where Self: Actor<Context = Context<Self>> + Default { Self::default().start() }
    fn create<F: FnOnce(&mut Context<Self>) -> Self>(f: F) -> Addr<Self> where Self: Actor<Context = Context<Self>> {
        let a = Addr::<Self>::make(vec![], false);
        let mut c = Context { addr: a.clone(), pending: vec![] };
        let mut me = f(&mut c);
        me.started(&mut c);
        run_pending(&mut me, &mut c);
        a.0.workers.borrow_mut().push(me);
        a
    }
}
pub trait Supervised: Actor { fn restarting(&mut self, _c: &mut Self::Context) {} }
pub trait Handler<M: Message> where Self: Actor { type Result: MessageResponse<Self, M>; fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result; }
pub trait MessageResponse<A: Actor, M: Message> { fn finish(self, act: &mut A, ctx: &mut A::Context) -> Option<M::Result>; }
pub struct MessageResult<M: Message>(pub M::Result);
impl<A: Actor, M: Message> MessageResponse<A, M> for MessageResult<M> { fn finish(self, _a: &mut A, _c: &mut A::Context) -> Option<M::Result> { Some(self.0) } }
impl<A: Actor, M: Message<Result = Result<I, E>>, I: 'static, E: 'static> MessageResponse<A, M> for Result<I, E> { fn finish(self, _a: &mut A, _c: &mut A::Context) -> Option<M::Result> { Some(self) } }
impl<A: Actor, M: Message<Result = Option<I>>, I: 'static> MessageResponse<A, M> for Option<I> { fn finish(self, _a: &mut A, _c: &mut A::Context) -> Option<M::Result> { Some(self) } }
impl<A: Actor, M: Message<Result = Vec<I>>, I: 'static> MessageResponse<A, M> for Vec<I> { fn finish(self, _a: &mut A, _c: &mut A::Context) -> Option<M::Result> { Some(self) } }
impl<A: Actor, M: Message<Result = T>, T: 'static> MessageResponse<A, M> for Pin<Box<dyn Future<Output = T>>> { fn finish(self, _a: &mut A, _c: &mut A::Context) -> Option<M::Result> { block(self) } }
pub struct AtomicResponse<A, T>(ResponseActFuture<A, T>);
impl<A, T> AtomicResponse<A, T> { pub fn new(f: ResponseActFuture<A, T>) -> Self { AtomicResponse(f) } }
impl<A: Actor, M: Message<Result = T>, T: 'static> MessageResponse<A, M> for ResponseActFuture<A, T> { fn finish(mut self, a: &mut A, c: &mut A::Context) -> Option<M::Result> { poll_act(&mut self, a, c) } }
impl<A: Actor, M: Message<Result = T>, T: 'static> MessageResponse<A, M> for AtomicResponse<A, T> { fn finish(mut self, a: &mut A, c: &mut A::Context) -> Option<M::Result> { poll_act(&mut self.0, a, c) } }
macro_rules! resp { ($($t:ty),*) => { $(impl<A: Actor, M: Message<Result = $t>> MessageResponse<A, M> for $t { fn finish(self, _a: &mut A, _c: &mut A::Context) -> Option<M::Result> { Some(self) } })* } }
resp!((), bool, u8, u16, u32, u64, usize, i32, i64, String);
pub type ResponseFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub type ResponseActFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;

fn block<F: Future + ?Sized>(mut f: Pin<Box<F>>) -> Option<F::Output> {
    let mut cx = TaskContext::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}
fn poll_act<A: Actor, T>(f: &mut ResponseActFuture<A, T>, a: &mut A, c: &mut A::Context) -> Option<T> {
    let mut cx = TaskContext::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(a, c, &mut cx) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}

// ---- addresses
pub struct Mailbox<A: Actor> { pub id: usize, pub sync: bool, pub queue: RefCell<VecDeque<Box<dyn Envelope<A>>>>, pub workers: RefCell<Vec<A>>, pub connected: RefCell<bool> }
pub trait Envelope<A: Actor> { fn deliver(self: Box<Self>, act: &mut A, ctx: &mut A::Context); fn any(&self) -> &dyn Any; fn into_any(self: Box<Self>) -> Box<dyn Any>; }
struct Env<M: Message> { msg: M, reply: Option<Rc<RefCell<Option<M::Result>>>> }
impl<A: Actor + Handler<M>, M: Message + 'static> Envelope<A> for Env<M> {
    fn deliver(self: Box<Self>, act: &mut A, ctx: &mut A::Context) {
        let e = *self;
        let r = act.handle(e.msg, ctx);
        let r = r.finish(act, ctx);
        if let (Some(slot), Some(r)) = (e.reply, r) { *slot.borrow_mut() = Some(r); }
    }
    fn any(&self) -> &dyn Any { &self.msg }
    fn into_any(self: Box<Self>) -> Box<dyn Any> { Box::new(self.msg) }
}
pub struct Addr<A: Actor>(pub Rc<Mailbox<A>>);
// the real address type is thread-safe; harnesses are single-threaded
unsafe impl<A: Actor> Send for Addr<A> {}
unsafe impl<A: Actor> Sync for Addr<A> {}
impl<A: Actor> Clone for Addr<A> { fn clone(&self) -> Self { Addr(self.0.clone()) } }
impl<A: Actor> PartialEq for Addr<A> { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.0, &o.0) } }
impl<A: Actor> Eq for Addr<A> {}
impl<A: Actor> std::fmt::Debug for Addr<A> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Addr") } }
static mut NEXT: usize = 0;
pub static ALL: symapi::Global<Vec<Box<dyn Any>>> = symapi::Global::new();
/// every mailbox created for actors of type A, in order of creation
pub fn mailboxes<A: Actor>() -> Vec<Addr<A>> { match ALL.opt() { None => vec![], Some(v) => v.iter().filter_map(|a| a.downcast_ref::<Addr<A>>().cloned()).collect() } }
pub enum SendError<T> { Full(T), Closed(T) }
impl<T> SendError<T> { pub fn into_inner(self) -> T { match self { SendError::Full(t) | SendError::Closed(t) => t } } }
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
impl<T> std::error::Error for SendError<T> {}
#[derive(Debug, Clone, Copy, PartialEq)] pub enum MailboxError { Closed, Timeout }
impl std::fmt::Display for MailboxError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("MailboxError") } }
impl std::error::Error for MailboxError {}
pub const DEFAULT_CAPACITY: usize = 16;
impl<A: Actor> Addr<A> {
    fn make(w: Vec<A>, sync: bool) -> Self {
        let id = unsafe { NEXT += 1; NEXT };
        let a = Addr(Rc::new(Mailbox { id, sync, queue: RefCell::new(VecDeque::new()), workers: RefCell::new(w), connected: RefCell::new(true) }));
        if ALL.opt().is_none() { ALL.set(vec![]) }
        ALL.get().push(Box::new(a.clone()));
        a
    }
    fn push<M>(&self, msg: M, reply: Option<Rc<RefCell<Option<M::Result>>>>) where A: Handler<M>, M: Message + 'static { self.0.queue.borrow_mut().push_back(Box::new(Env { msg, reply })) }
    pub fn connected(&self) -> bool { *self.0.connected.borrow() }
    pub fn do_send<M>(&self, msg: M) where A: Handler<M>, M: Message + 'static { if self.connected() { self.push(msg, None) } }
    pub fn try_send<M>(&self, msg: M) -> Result<(), SendError<M>> where A: Handler<M>, M: Message + 'static {
        if !self.connected() { return Err(SendError::Closed(msg)); }
        if !self.0.sync && self.0.queue.borrow().len() >= DEFAULT_CAPACITY { return Err(SendError::Full(msg)); }
        self.push(msg, None);
        Ok(())
    }
    pub fn send<M>(&self, msg: M) -> Request<A, M> where A: Handler<M>, M: Message + 'static { let slot = Rc::new(RefCell::new(None)); if self.connected() { self.push(msg, Some(slot.clone())); } Request(self.clone(), slot) }
    pub fn recipient<M>(self) -> Recipient<M> where A: Handler<M>, M: Message + 'static { Recipient(Rc::new(self)) }
    pub fn downgrade(&self) -> WeakAddr<A> { WeakAddr(Rc::downgrade(&self.0)) }
    // ---- harness side
    pub fn pending(&self) -> usize { self.0.queue.borrow().len() }
    /// look at the n-th queued message
    pub fn peek<M: 'static, R>(&self, n: usize, f: impl FnOnce(Option<&M>) -> R) -> R { let q = self.0.queue.borrow(); f(q.get(n).and_then(|e| e.any().downcast_ref::<M>())) }
    /// take the n-th queued message without handling it
    pub fn take<M: 'static>(&self, n: usize) -> Option<M> { let e = self.0.queue.borrow_mut().remove(n)?; e.into_any().downcast::<M>().ok().map(|b| *b) }
    fn run_with(&self, w: usize, n: usize, mk: impl FnOnce(Addr<A>) -> A::Context, after: impl FnOnce(&mut A, &mut A::Context)) -> bool {
        let e = match self.0.queue.borrow_mut().remove(n) { Some(e) => e, None => return false };
        let mut act = self.0.workers.borrow_mut().remove(w);
        let mut c = mk(self.clone());
        e.deliver(&mut act, &mut c);
        after(&mut act, &mut c);
        self.0.workers.borrow_mut().insert(w, act);
        true
    }
}
impl<A: Actor<Context = Context<A>>> Addr<A> {
    /// handle the oldest message; futures spawned by the handler then run to completion
    pub fn step(&self) -> bool { self.run_with(0, 0, |a| Context { addr: a, pending: vec![] }, |a, c| run_pending(a, c)) }
}
impl<A: Actor<Context = SyncContext<A>>> Addr<A> {
    pub fn step_sync(&self, worker: usize, n: usize) -> bool { self.run_with(worker, n, |a| SyncContext(a), |_, _| {}) }
}
pub struct WeakAddr<A: Actor>(std::rc::Weak<Mailbox<A>>);
impl<A: Actor> WeakAddr<A> { pub fn upgrade(&self) -> Option<Addr<A>> { self.0.upgrade().map(Addr) } }
impl<A: Actor> Clone for WeakAddr<A> { fn clone(&self) -> Self { WeakAddr(self.0.clone()) } }
trait RecipientSend<M: Message> { fn send_dyn(&self, m: M); fn try_dyn(&self, m: M) -> Result<(), SendError<M>>; }
impl<A: Actor + Handler<M>, M: Message + 'static> RecipientSend<M> for Addr<A> { fn send_dyn(&self, m: M) { self.do_send(m) } fn try_dyn(&self, m: M) -> Result<(), SendError<M>> { self.try_send(m) } }
pub struct Recipient<M: Message>(Rc<dyn RecipientSend<M>>);
unsafe impl<M: Message> Send for Recipient<M> {}
unsafe impl<M: Message> Sync for Recipient<M> {}
impl<M: Message> Clone for Recipient<M> { fn clone(&self) -> Self { Recipient(self.0.clone()) } }
impl<M: Message> Recipient<M> { pub fn do_send(&self, m: M) { self.0.send_dyn(m) } pub fn try_send(&self, m: M) -> Result<(), SendError<M>> { self.0.try_dyn(m) } }
impl<A: Actor + Handler<M>, M: Message + 'static> From<Addr<A>> for Recipient<M> { fn from(a: Addr<A>) -> Self { a.recipient() } }
pub struct Request<A: Actor, M: Message>(Addr<A>, Rc<RefCell<Option<M::Result>>>);
impl<A: Actor, M: Message> Future for Request<A, M> {
    type Output = Result<M::Result, MailboxError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut TaskContext<'_>) -> Poll<Self::Output> {
        if let Some(f) = SCHEDULER.opt() { f() }
        match self.1.borrow_mut().take() { Some(r) => Poll::Ready(Ok(r)), None => if self.0.connected() { Poll::Pending } else { Poll::Ready(Err(MailboxError::Closed)) } }
    }
}
/// called while somebody awaits a reply
pub static SCHEDULER: symapi::Global<Box<dyn FnMut()>> = symapi::Global::new();

// ---- contexts
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub struct SpawnHandle(usize);
pub struct Context<A: Actor> { addr: Addr<A>, pending: Vec<Pin<Box<dyn ActorFuture<A, Output = ()>>>> }
impl<A: Actor> ActorContext for Context<A> { fn stop(&mut self) { *self.addr.0.connected.borrow_mut() = false } fn terminate(&mut self) { self.stop() } }
impl<A: Actor> Context<A> { pub fn set_mailbox_capacity(&mut self, _n: usize) {} }
pub struct SyncContext<A: Actor>(Addr<A>);
impl<A: Actor> ActorContext for SyncContext<A> { fn stop(&mut self) { *self.0 .0.connected.borrow_mut() = false } fn terminate(&mut self) { self.stop() } }
impl<A: Actor> SyncContext<A> { pub fn address(&self) -> Addr<A> { self.0.clone() } }
fn run_pending<A: Actor<Context = Context<A>>>(a: &mut A, c: &mut Context<A>) {
    while !c.pending.is_empty() {
        let mut f = c.pending.remove(0);
        let mut cx = TaskContext::from_waker(std::task::Waker::noop());
        if f.as_mut().poll(a, c, &mut cx).is_pending() { if let Some(h) = STUCK.opt() { h() } }
    }
}
/// called when a spawned future waits for ever
pub static STUCK: symapi::Global<Box<dyn FnMut()>> = symapi::Global::new();
pub trait AsyncContext<A: Actor<Context = Self>>: ActorContext {
    fn address(&self) -> Addr<A>;
    fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) -> SpawnHandle;
    fn wait<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) { self.spawn(f); }
    fn cancel_future(&mut self, _h: SpawnHandle) -> bool { false }
    fn notify<M: Message + 'static>(&mut self, m: M) where A: Handler<M> { self.address().do_send(m) }
    fn notify_later<M: Message + 'static>(&mut self, m: M, _after: Duration) -> SpawnHandle where A: Handler<M> { self.address().do_send(m); SpawnHandle(0) }
    fn run_later<F: FnOnce(&mut A, &mut A::Context) + 'static>(&mut self, _d: Duration, f: F) -> SpawnHandle;
    fn run_interval<F: FnMut(&mut A, &mut A::Context) + 'static>(&mut self, _d: Duration, _f: F) -> SpawnHandle { SpawnHandle(0) }
}
struct Later<F>(Option<F>);
impl<F> Unpin for Later<F> {}
impl<A: Actor, F: FnOnce(&mut A, &mut A::Context) + 'static> ActorFuture<A> for Later<F> { type Output = (); fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, _t: &mut TaskContext<'_>) -> Poll<()> { if let Some(f) = self.0.take() { f(a, c) } Poll::Ready(()) } }
impl<A: Actor<Context = Context<A>>> AsyncContext<A> for Context<A> {
    fn address(&self) -> Addr<A> { self.addr.clone() }
    fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) -> SpawnHandle { self.pending.push(Box::pin(f)); SpawnHandle(self.pending.len()) }
    fn run_later<F: FnOnce(&mut A, &mut A::Context) + 'static>(&mut self, _d: Duration, f: F) -> SpawnHandle { self.pending.push(Box::pin(Later(Some(f)))); SpawnHandle(self.pending.len()) }
}

// ---- actor futures
pub trait ActorFuture<A: Actor> { type Output; fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, task: &mut TaskContext<'_>) -> Poll<Self::Output>; }
impl<A: Actor, F: ActorFuture<A> + ?Sized> ActorFuture<A> for Pin<Box<F>> { type Output = F::Output; fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut TaskContext<'_>) -> Poll<F::Output> { self.as_mut().get_mut().as_mut().poll(a, c, t) } }
pub struct FutureWrap<F, A>(Pin<Box<F>>, PhantomData<A>);
impl<F, A> Unpin for FutureWrap<F, A> {}
impl<A: Actor, F: Future> ActorFuture<A> for FutureWrap<F, A> { type Output = F::Output; fn poll(mut self: Pin<&mut Self>, _a: &mut A, _c: &mut A::Context, t: &mut TaskContext<'_>) -> Poll<F::Output> { self.0.as_mut().poll(t) } }
pub trait WrapFuture<A: Actor>: Future + Sized { fn into_actor(self, _a: &A) -> FutureWrap<Self, A> { FutureWrap(Box::pin(self), PhantomData) } }
impl<A: Actor, F: Future> WrapFuture<A> for F {}
pub struct Map<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for Map<F, G> {}
impl<A: Actor, F: ActorFuture<A>, R, G: FnOnce(F::Output, &mut A, &mut A::Context) -> R> ActorFuture<A> for Map<F, G> { type Output = R; fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut TaskContext<'_>) -> Poll<R> { match self.0.as_mut().poll(a, c, t) { Poll::Ready(v) => { let g = self.1.take().unwrap(); Poll::Ready(g(v, a, c)) } Poll::Pending => Poll::Pending } } }
pub struct Then<F, G, H>(Pin<Box<F>>, Option<G>, Option<Pin<Box<H>>>);
impl<F, G, H> Unpin for Then<F, G, H> {}
impl<A: Actor, F: ActorFuture<A>, H: ActorFuture<A>, G: FnOnce(F::Output, &mut A, &mut A::Context) -> H> ActorFuture<A> for Then<F, G, H> {
    type Output = H::Output;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut TaskContext<'_>) -> Poll<H::Output> {
        if self.2.is_none() { match self.0.as_mut().poll(a, c, t) { Poll::Ready(v) => { let g = self.1.take().unwrap(); self.2 = Some(Box::pin(g(v, a, c))); } Poll::Pending => return Poll::Pending } }
        self.2.as_mut().unwrap().as_mut().poll(a, c, t)
    }
}
pub trait ActorFutureExt<A: Actor>: ActorFuture<A> + Sized {
    fn map<R, G: FnOnce(Self::Output, &mut A, &mut A::Context) -> R>(self, g: G) -> Map<Self, G> { Map(Box::pin(self), Some(g)) }
    fn then<H: ActorFuture<A>, G: FnOnce(Self::Output, &mut A, &mut A::Context) -> H>(self, g: G) -> Then<Self, G, H> { Then(Box::pin(self), Some(g), None) }
    fn boxed_local(self) -> Pin<Box<dyn ActorFuture<A, Output = Self::Output>>> where Self: 'static { Box::pin(self) }
}
impl<A: Actor, F: ActorFuture<A>> ActorFutureExt<A> for F {}
pub trait ContextFutureSpawner<A: Actor> { fn spawn(self, ctx: &mut A::Context); fn wait(self, ctx: &mut A::Context); }
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A, Output = ()> + 'static> ContextFutureSpawner<A> for F { fn spawn(self, ctx: &mut Context<A>) { AsyncContext::spawn(ctx, self); } fn wait(self, ctx: &mut Context<A>) { AsyncContext::spawn(ctx, self); } }
pub fn spawn<F: Future<Output = ()> + 'static>(f: F) { let _ = block(Box::pin(f)); }
pub mod fut {
    use super::*;
    pub fn wrap_future<F: Future, A: Actor>(f: F) -> FutureWrap<F, A> { FutureWrap(Box::pin(f), PhantomData) }
    pub struct ReadyFut<T>(Option<T>);
    impl<T> Unpin for ReadyFut<T> {}
    impl<A: Actor, T> ActorFuture<A> for ReadyFut<T> { type Output = T; fn poll(mut self: Pin<&mut Self>, _a: &mut A, _c: &mut A::Context, _t: &mut TaskContext<'_>) -> Poll<T> { Poll::Ready(self.0.take().unwrap()) } }
    pub fn ready<T>(t: T) -> ReadyFut<T> { ReadyFut(Some(t)) }
    pub use crate::{ActorFuture, ActorFutureExt};
}
pub struct SyncArbiter;
pub static STARTED: symapi::Global<Vec<(usize, usize)>> = symapi::Global::new();
impl SyncArbiter {
    /// n workers sharing one queue
    pub fn start<A: Actor<Context = SyncContext<A>>, F: Fn() -> A + 'static>(n: usize, f: F) -> Addr<A> {
        let a = Addr::make(vec![], true);
        for _ in 0..n { let mut w = f(); let mut c = SyncContext(a.clone()); w.started(&mut c); a.0.workers.borrow_mut().push(w); }
        a
    }
}
pub struct System; pub struct Arbiter;
impl System { pub fn new() -> Self { System } pub fn current() -> Self { System } pub fn stop(&self) {} pub fn block_on<F: Future>(&self, f: F) -> F::Output { block(Box::pin(f)).expect("future never completes") } pub fn run(self) -> std::io::Result<()> { Ok(()) } }
impl Arbiter { pub fn new() -> Self { Arbiter } pub fn current() -> Self { Arbiter } pub fn spawn<F: Future<Output = ()> + 'static>(&self, f: F) -> bool { let _ = block(Box::pin(f)); true } }
pub mod clock { pub use std::time::{Duration, Instant}; pub async fn sleep(_d: Duration) {} }
pub mod dev { pub use crate::*; pub struct OneshotSender<T>(PhantomData<T>); }
pub mod prelude {
    pub use crate::fut::{self};
    pub use crate::{Actor, ActorContext, ActorFuture, ActorFutureExt, Addr, Arbiter, AsyncContext, AtomicResponse, Context, ContextFutureSpawner, Handler, MailboxError, Message, MessageResponse, MessageResult, Recipient, Request, ResponseActFuture, ResponseFuture, Running, SendError, SpawnHandle, Supervised, SyncArbiter, SyncContext, System, WeakAddr, WrapFuture};
    pub use actix_derive::*;
}
