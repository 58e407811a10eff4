//! Model of the operating system at the level of the C library: TCP sockets with a scripted
//! remote end, a clock, and a file system in memory.  It is off until a harness switches a part
//! on; file descriptors below 1000 are never the model's.
use super::*;
use ::std::vec::Vec;
use ::std::string::String;
pub const HOLD: u32 = u32::MAX;
extern "C" { fn __errno_location() -> *mut i32; }
fn err<T: From<i8>>(e: i32) -> T { unsafe { *__errno_location() = e } T::from(-1) }
const EAGAIN: i32 = 11; const ENOENT: i32 = 2; const EEXIST: i32 = 17; const ENOTDIR: i32 = 20; const EISDIR: i32 = 21; const EPIPE: i32 = 32; const ECONNRESET: i32 = 104;
const EINPROGRESS: i32 = 115; const ECONNREFUSED: i32 = 111; const ETIMEDOUT: i32 = 110; const EBADF: i32 = 9; const EINVAL: i32 = 22; pub const ENOSPC: i32 = 28; pub const EACCES: i32 = 13; const EINTR: i32 = 4; const ENOTEMPTY: i32 = 39; const ENOTCONN: i32 = 107; const ENETUNREACH: i32 = 101;

// ---------------------------------------------------------------- network
#[derive(Clone, Copy, PartialEq)]
pub enum End { Open, Fin, Reset }
/// bytes of the remote end, arriving after `delay` further receive calls (HOLD: not before `release`)
pub struct Seg { pub bytes: Vec<u8>, pub delay: u32 }
pub struct Conn { pub idx: usize, pub addr: [u8; 6], pub v6: bool, pub connected: bool, pub outcome: Outcome, pub rx: Vec<u8>, pub pending: Vec<Seg>, pub end: End, pub tx: Vec<u8>, pub seen: usize, pub timeo: u64, pub nonblock: bool, pub closed: bool, pub wr_closed: bool, pub taken: usize }
#[derive(Clone, Copy, PartialEq)]
pub enum Outcome { Accept, Refuse, Timeout, Unreachable, NoSocket }
pub struct Net { pub on: bool, pub conns: Vec<Conn>, pub on_connect: fn(&mut Conn) -> Outcome, pub on_send: fn(&mut Conn), pub now: u64, pub calls: usize, pub max_calls: usize, pub short: usize, pub timeouts: usize }
static NET: Global<Net> = Global::new();
fn accept(_c: &mut Conn) -> Outcome { Outcome::Accept }
fn ignore(_c: &mut Conn) {}
pub fn net_on() { NET.set(Net { on: true, conns: vec![], on_connect: accept, on_send: ignore, now: 1_000_000_000, calls: 0, max_calls: 20000, short: 0, timeouts: 0 }) }
pub fn net() -> &'static mut Net { NET.get() }
fn on() -> bool { match NET.opt() { Some(n) => n.on, None => false } }
fn conn(fd: i32) -> Option<&'static mut Conn> { if on() && fd >= 1000 && fd < 2000 { net().conns.get_mut(fd as usize - 1000) } else { None } }
impl Conn {
    /// the remote end sends bytes that are there at once
    pub fn push(&mut self, b: &[u8]) { self.pending.push(Seg { bytes: b.to_vec(), delay: 0 }) }
    pub fn release(&mut self) { for s in self.pending.iter_mut() { s.delay = 0 } }
    fn arrive(&mut self) {
        while !self.pending.is_empty() {
            if self.pending[0].delay == 0 { let s = self.pending.remove(0); self.rx.extend_from_slice(&s.bytes) }
            else { if self.pending[0].delay != HOLD { self.pending[0].delay -= 1 } break }
        }
    }
}
fn sock() -> i32 {
    let n = net();
    n.conns.push(Conn { idx: n.conns.len(), addr: [0; 6], v6: false, connected: false, outcome: Outcome::Accept, rx: vec![], pending: vec![], end: End::Open, tx: vec![], seen: 0, timeo: 0, nonblock: false, closed: false, wr_closed: false, taken: 0 });
    999 + n.conns.len() as i32
}
fn tick() { let n = net(); n.calls += 1; if n.calls > n.max_calls { fail("the exchange with the peer does not come to an end") } }
fn do_recv(c: &mut Conn, buf: &mut [u8], flags: i32) -> isize {
    if !c.connected { return err(ENOTCONN); }
    loop {
        tick();
        c.arrive();
        if !c.rx.is_empty() {
            let k = buf.len().min(c.rx.len());
            buf[..k].copy_from_slice(&c.rx[..k]);
            if flags & 2 == 0 { c.taken += k; c.rx.drain(..k); }
            return k as isize;
        }
        if c.pending.is_empty() { match c.end { End::Fin => return 0, End::Reset => return err(ECONNRESET), End::Open => {} } }
        if buf.is_empty() { return 0; }
        if c.nonblock || flags & 0x40 != 0 { return err(EAGAIN); }
        if c.timeo > 0 { net().now += c.timeo; net().timeouts += 1; return err(EAGAIN); }
        if c.pending.is_empty() || c.pending[0].delay == HOLD { fail("waits for ever for a silent peer") }
    }
}
fn do_send(c: &mut Conn, b: &[u8]) -> isize {
    if !c.connected { return err(ENOTCONN); }
    tick();
    if c.wr_closed { return err(EPIPE); }
    if c.end == End::Reset { return err(EPIPE); }
    let mut k = b.len();
    if net().short > 0 && k > 1 && bool("short send") { net().short -= 1; k = if bool("one byte") { 1 } else { k - 1 } }
    c.tx.extend_from_slice(&b[..k]);
    (net().on_send)(c);
    k as isize
}
fn resolve(c: &mut Conn, sa: *const u8) {
    unsafe {
        let fam = *(sa as *const u16);
        c.v6 = fam != 2;
        if fam == 2 { for i in 0..4 { c.addr[i] = *sa.add(4 + i) } c.addr[4] = *sa.add(2); c.addr[5] = *sa.add(3) }
        else { c.addr[4] = *sa.add(2); c.addr[5] = *sa.add(3) }
    }
    c.outcome = (net().on_connect)(c);
}
fn outcome_errno(o: Outcome) -> i32 { match o { Outcome::Accept => 0, Outcome::Refuse => ECONNREFUSED, Outcome::Timeout => ETIMEDOUT, _ => ENETUNREACH } }

#[cfg(feature = "native")]
extern "C" { fn syscall(n: i64, ...) -> i64; }
macro_rules! real { ($n:expr, $d:expr, $($a:expr),*) => {{ #[cfg(feature = "native")] { syscall($n, $($a),*) as _ } #[cfg(not(feature = "native"))] { $d } }} }

#[no_mangle] pub unsafe extern "C" fn socket(d: i32, t: i32, p: i32) -> i32 { if on() { sock() } else { real!(41, err(EINVAL), d as i64, t as i64, p as i64) } }
#[no_mangle] pub unsafe extern "C" fn connect(fd: i32, sa: *const u8, l: u32) -> i32 {
    let c = match conn(fd) { Some(c) => c, None => return real!(42, err(EBADF), fd as i64, sa, l as i64) };
    resolve(c, sa);
    if c.outcome == Outcome::Unreachable { return err(ENETUNREACH); }
    if c.nonblock { return err(EINPROGRESS); }
    if c.outcome == Outcome::Accept { c.connected = true; return 0; }
    if c.outcome == Outcome::Timeout { net().now += 127_000_000_000 }
    err(outcome_errno(c.outcome))
}
#[repr(C)] pub struct PollFd { fd: i32, events: i16, revents: i16 }
#[no_mangle] pub unsafe extern "C" fn poll(p: *mut PollFd, n: u64, timeout: i32) -> i32 {
    if !on() { return real!(7, 0, p, n as i64, timeout as i64); }
    tick();
    let mut ready = 0;
    for i in 0..n as usize {
        let f = &mut *p.add(i);
        f.revents = 0;
        if let Some(c) = conn(f.fd) {
            if !c.connected { if c.outcome == Outcome::Accept { c.connected = true } else if c.outcome != Outcome::Timeout { f.revents = (f.events & 4) | 8 | 16 } }
            if c.connected { f.revents |= f.events & 4; c.arrive(); if !c.rx.is_empty() || (c.pending.is_empty() && c.end != End::Open) { f.revents |= f.events & 1 } }
            if f.revents != 0 { ready += 1 }
        }
    }
    if ready == 0 { if timeout < 0 { fail("waits for ever in poll") } net().now += timeout as u64 * 1_000_000 }
    ready
}
#[no_mangle] pub unsafe extern "C" fn getsockopt(fd: i32, l: i32, o: i32, v: *mut i32, n: *mut u32) -> i32 {
    let c = match conn(fd) { Some(c) => c, None => return real!(55, err(EBADF), fd as i64, l as i64, o as i64, v, n) };
    if o == 20 || o == 21 { *(v as *mut i64) = (c.timeo / 1_000_000_000) as i64; *(v as *mut i64).add(1) = (c.timeo % 1_000_000_000 / 1000) as i64; return 0; }
    *v = if o == 4 && !c.connected { outcome_errno(c.outcome) } else { 0 };
    0
}
#[no_mangle] pub unsafe extern "C" fn setsockopt(fd: i32, l: i32, o: i32, v: *const i64, n: u32) -> i32 {
    let c = match conn(fd) { Some(c) => c, None => return real!(54, err(EBADF), fd as i64, l as i64, o as i64, v, n as i64) };
    if o == 20 { c.timeo = *v as u64 * 1_000_000_000 + *v.add(1) as u64 * 1000 }
    0
}
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: i32, r: u64, v: *mut i32) -> i32 {
    let c = match conn(fd) { Some(c) => c, None => return real!(16, err(EBADF), fd as i64, r as i64, v) };
    if r == 0x5421 { c.nonblock = *v != 0 } else if r == 0x541b { c.arrive(); *v = c.rx.len() as i32 }
    0
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, v: u64) -> i32 {
    let c = match conn(fd) { Some(c) => c, None => return if fd >= 2000 && fs_on() { if cmd == 1030 || cmd == 0 { err(EINVAL) } else { 0 } } else { real!(72, 0, fd as i64, cmd as i64, v as i64) } };
    match cmd { 3 => if c.nonblock { 0x802 } else { 2 }, 4 => { c.nonblock = v & 0x800 != 0; 0 } 1030 | 0 => fd, _ => 0 }
}
#[no_mangle] pub unsafe extern "C" fn recv(fd: i32, b: *mut u8, n: usize, f: i32) -> isize { match conn(fd) { Some(c) => do_recv(c, ::std::slice::from_raw_parts_mut(b, n), f), None => real!(45, err(EBADF), fd as i64, b, n, f as i64, 0i64, 0i64) } }
#[no_mangle] pub unsafe extern "C" fn send(fd: i32, b: *const u8, n: usize, f: i32) -> isize { match conn(fd) { Some(c) => do_send(c, ::std::slice::from_raw_parts(b, n)), None => real!(44, err(EBADF), fd as i64, b, n, f as i64, 0i64, 0i64) } }
#[no_mangle] pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 { match conn(fd) { Some(c) => { if how >= 1 { c.wr_closed = true } if how != 1 { c.end = End::Fin; c.pending.clear(); c.rx.clear() } 0 } None => real!(48, err(EBADF), fd as i64, how as i64) } }
#[no_mangle] pub unsafe extern "C" fn getpeername(fd: i32, sa: *mut u8, l: *mut u32) -> i32 {
    let c = match conn(fd) { Some(c) => c, None => return real!(52, err(EBADF), fd as i64, sa, l) };
    if !c.connected { return err(ENOTCONN); }
    *(sa as *mut u16) = 2; *sa.add(2) = c.addr[4]; *sa.add(3) = c.addr[5]; for i in 0..4 { *sa.add(4 + i) = c.addr[i] } *l = 16; 0
}
#[repr(C)] pub struct IoVec { p: *mut u8, n: usize }
#[no_mangle] pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize { if conn(fd).is_none() && file(fd).is_none() { return real!(19, err(EBADF), fd as i64, v, n as i64); } for i in 0..n as usize { let e = &*v.add(i); if e.n > 0 { return read(fd, e.p, e.n); } } 0 }
#[no_mangle] pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize { if conn(fd).is_none() && file(fd).is_none() { return real!(20, 0, fd as i64, v, n as i64); } for i in 0..n as usize { let e = &*v.add(i); if e.n > 0 { return write(fd, e.p, e.n); } } 0 }

// ---------------------------------------------------------------- time
#[repr(C)] pub struct Ts { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn nanosleep(t: *const Ts, r: *mut Ts) -> i32 { if on() { net().now += (*t).s as u64 * 1_000_000_000 + (*t).n as u64; 0 } else { real!(35, 0, t, r) } }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(k: i32, f: i32, t: *const Ts, r: *mut Ts) -> i32 { if on() { let d = (*t).s as u64 * 1_000_000_000 + (*t).n as u64; if f == 1 { if d > net().now { net().now = d } } else { net().now += d } 0 } else { real!(230, 0, k as i64, f as i64, t, r) } }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(k: i32, t: *mut Ts) -> i32 {
    if on() { net().now += 1000; (*t).s = (net().now / 1_000_000_000) as i64; (*t).n = (net().now % 1_000_000_000) as i64; 0 }
    else { real!(228, { (*t).s = 1; (*t).n = 0; 0 }, k as i64, t) }
}

// ---------------------------------------------------------------- files
/// file contents as the list of bytes written, in order; the size is kept apart
pub struct Node { pub path: Vec<Vec<u8>>, pub dir: bool, pub writes: Vec<(u64, u8)>, pub size: u64 }
pub struct Open { pub node: usize, pub pos: u64, pub rd: bool, pub wr: bool, pub append: bool, pub open: bool }
/// short: how many writes may be shortened; faults: how many calls may fail; touched: created or modified
pub struct Fs { pub nodes: Vec<Node>, pub opens: Vec<Open>, pub short: usize, pub few: bool, pub intr: usize, pub faults: usize, pub failed: usize, pub touched: Vec<Vec<Vec<u8>>>, pub cwd: Vec<Vec<u8>> }
static FS: Global<Fs> = Global::new();
pub fn files_on() {
    FS.set(Fs { nodes: vec![], opens: vec![], short: 0, few: false, intr: 0, faults: 0, failed: 0, touched: vec![], cwd: vec![b"home".to_vec(), b"work".to_vec()] });
    for i in 0..3 { let p = fs().cwd[..i].to_vec(); fs().nodes.push(Node { path: p, dir: true, writes: vec![], size: 0 }) }
    for p in [&["etc"][..], &["home", "other"], &["tmp"]] { fs().nodes.push(Node { path: p.iter().map(|c| c.as_bytes().to_vec()).collect(), dir: true, writes: vec![], size: 0 }) }
}
pub fn fs() -> &'static mut Fs { FS.get() }
fn fs_on() -> bool { FS.opt().is_some() }
fn file(fd: i32) -> Option<&'static mut Open> { if fs_on() && fd >= 2000 { fs().opens.get_mut(fd as usize - 2000) } else { None } }
/// path seen from the root, without "." and ".."; `trail`: has to be a directory
pub fn absolute(p: &[u8]) -> Result<(Vec<Vec<u8>>, bool), i32> {
    if p.is_empty() { return Err(ENOENT); }
    let mut at = if p[0] == b'/' { vec![] } else { fs().cwd.clone() };
    let mut comps: Vec<Vec<u8>> = vec![vec![]];
    for c in p { if *c == b'/' { comps.push(vec![]) } else { comps.last_mut().unwrap().push(*c) } }
    let trail = match comps.last() { Some(l) => l.is_empty() || *l == b"." || *l == b"..", None => false };
    let n = comps.len();
    for (i, c) in comps.into_iter().enumerate() {
        if c.is_empty() || c == b"." { continue }
        // everything gone through has to be an existing directory
        match find(&at) { None => return Err(ENOENT), Some(k) => if !fs().nodes[k].dir { return Err(ENOTDIR) } }
        if c == b".." { at.pop(); } else { if c.len() > 255 { return Err(36); } at.push(c) }
    }
    Ok((at, trail))
}
pub fn find(p: &[Vec<u8>]) -> Option<usize> { for (i, n) in fs().nodes.iter().enumerate() { if n.path.len() == p.len() && n.path.iter().zip(p).all(|(a, b)| a == b) { return Some(i) } } None }
pub fn lookup(p: &str) -> Option<&'static Node> { match absolute(p.as_bytes()) { Ok((a, _)) => find(&a).map(|i| &fs().nodes[i]), Err(_) => None } }
/// contents of a file, missing bytes zero
pub fn contents(p: &str) -> Option<Vec<u8>> { lookup(p).map(|n| { let mut v = vec![0; concretize(n.size) as usize]; for (o, b) in &n.writes { let o = concretize(*o) as usize; if o < v.len() { v[o] = *b } } v }) }
pub fn put(p: &str, b: &[u8]) { let (a, _) = match absolute(p.as_bytes()) { Ok(a) => a, Err(_) => fail("model: put") }; fs().nodes.retain(|n| n.path != a); fs().nodes.push(Node { path: a, dir: false, writes: b.iter().enumerate().map(|(i, b)| (i as u64, *b)).collect(), size: b.len() as u64 }) }
pub fn mkdir_p(p: &str) { if lookup(p).is_none() { let (a, _) = match absolute(p.as_bytes()) { Ok(a) => a, Err(_) => fail("model: mkdir") }; fs().nodes.push(Node { path: a, dir: true, writes: vec![], size: 0 }) } }
fn fault() -> bool { let f = fs(); if f.faults > 0 && bool("fault") { f.faults -= 1; f.failed += 1; return true; } false }
unsafe fn cstr(p: *const u8) -> Vec<u8> { let mut v = vec![]; let mut i = 0; loop { let c = *p.add(i); if c == 0 { return v; } v.push(c); i += 1 } }
fn parent_ok(a: &[Vec<u8>]) -> Result<(), i32> { match find(&a[..a.len() - 1]) { None => Err(ENOENT), Some(k) => if fs().nodes[k].dir { Ok(()) } else { Err(ENOTDIR) } } }
fn touch(a: &[Vec<u8>]) { if fs().touched.last().map(|t| &t[..] != a).unwrap_or(true) { fs().touched.push(a.to_vec()) } }
fn do_open(p: &[u8], flags: i32) -> Result<i32, i32> {
    if fault() { return Err(EACCES); }
    let (a, trail) = absolute(p)?;
    let acc = flags & 3;
    let k = match find(&a) {
        Some(k) => {
            if flags & 0x40 != 0 && flags & 0x80 != 0 { return Err(EEXIST); }
            if fs().nodes[k].dir { if acc != 0 || flags & 0x40 != 0 { return Err(EISDIR); } } else if trail || flags & 0x10000 != 0 { return Err(ENOTDIR); }
            k
        }
        None => {
            if flags & 0x40 == 0 { return Err(ENOENT); }
            if trail { return Err(EISDIR); }
            parent_ok(&a)?;
            touch(&a);
            fs().nodes.push(Node { path: a.clone(), dir: false, writes: vec![], size: 0 });
            fs().nodes.len() - 1
        }
    };
    if flags & 0x200 != 0 && acc != 0 && !fs().nodes[k].dir { touch(&a); fs().nodes[k].size = 0; fs().nodes[k].writes.clear() }
    fs().opens.push(Open { node: k, pos: 0, rd: acc != 1, wr: acc != 0, append: flags & 0x400 != 0, open: true });
    Ok(1999 + fs().opens.len() as i32)
}
fn do_pwrite(k: usize, b: &[u8], off: u64) -> isize {
    if fault() { return err(ENOSPC); }
    let f = fs();
    if f.intr > 0 && bool("interrupted") { f.intr -= 1; return err(EINTR); }
    let mut n = concretize(b.len() as u64) as usize;
    if f.short > 0 && n > 1 && bool("short write") { f.short -= 1; n = if f.few { [1, n / 2, n - 1][choose("written", 3)] } else { 1 + choose("written", n - 1) } }
    if n == 0 { return 0; }
    touch(&f.nodes[k].path);
    for i in 0..n { f.nodes[k].writes.push((off + i as u64, b[i])) }
    let e = off + n as u64;
    if e > f.nodes[k].size { f.nodes[k].size = e }
    n as isize
}
fn do_pread(k: usize, b: &mut [u8], off: u64) -> isize {
    let f = fs();
    if f.nodes[k].dir { return err(EISDIR); }
    if off >= f.nodes[k].size { return 0; }
    let n = concretize((f.nodes[k].size - off).min(b.len() as u64)) as usize;
    for i in 0..n { b[i] = 0 }
    for (o, x) in &f.nodes[k].writes { if *o >= off && *o < off + n as u64 { b[(*o - off) as usize] = *x } }
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 { if !fs_on() { return real!(2, err(ENOENT), p, flags as i64, mode as i64); } match do_open(&cstr(p), flags) { Ok(f) => f, Err(e) => err(e) } }
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize { match file(fd) { Some(o) => if o.wr { do_pwrite(o.node, ::std::slice::from_raw_parts(b, n), if o.append { fs().nodes[o.node].size } else { off as u64 }) } else { err(EBADF) }, None => real!(18, err(EBADF), fd as i64, b, n, off) } }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, off: i64) -> isize { match file(fd) { Some(o) => if o.rd { do_pread(o.node, ::std::slice::from_raw_parts_mut(b, n), off as u64) } else { err(EBADF) }, None => real!(17, err(EBADF), fd as i64, b, n, off) } }
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if let Some(c) = conn(fd) { return do_recv(c, ::std::slice::from_raw_parts_mut(b, n), 0); }
    match file(fd) { Some(o) => { if !o.rd { return err(EBADF); } let k = do_pread(o.node, ::std::slice::from_raw_parts_mut(b, n), o.pos); if k > 0 { o.pos += k as u64 } k } None => real!(0, 0, fd as i64, b, n) }
}
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if let Some(c) = conn(fd) { return do_send(c, ::std::slice::from_raw_parts(b, n)); }
    match file(fd) { Some(o) => { if !o.wr { return err(EBADF); } let at = if o.append { fs().nodes[o.node].size } else { o.pos }; let k = do_pwrite(o.node, ::std::slice::from_raw_parts(b, n), concretize(at)); if k > 0 { o.pos = at + k as u64 } k } None => real!(1, n as isize, fd as i64, b, n) }
}
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if let Some(c) = conn(fd) { c.closed = true; return 0; } match file(fd) { Some(o) => { o.open = false; 0 } None => real!(3, 0, fd as i64) } }
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, w: i32) -> i64 { match file(fd) { Some(o) => { let base = match w { 0 => 0, 1 => o.pos, _ => fs().nodes[o.node].size }; let p = (base as i64).wrapping_add(off); if p < 0 { return err(EINVAL); } o.pos = p as u64; p } None => real!(8, err(EBADF), fd as i64, off, w as i64) } }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 { match file(fd) { Some(o) => { if !o.wr { return err(EINVAL); } if fault() { return err(ENOSPC); } let k = &mut fs().nodes[o.node]; if (n as u64) < k.size { k.writes.retain(|w| w.0 < n as u64) } k.size = n as u64; let p = k.path.clone(); touch(&p); 0 } None => real!(77, err(EBADF), fd as i64, n) } }
#[no_mangle] pub unsafe extern "C" fn fallocate64(fd: i32, m: i32, off: i64, n: i64) -> i32 { match file(fd) { Some(o) => { let k = &mut fs().nodes[o.node]; if (off + n) as u64 > k.size { k.size = (off + n) as u64 } 0 } None => real!(285, err(EBADF), fd as i64, m as i64, off, n) } }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: i32) -> i32 { match file(fd) { Some(_) => if fault() { err(5) } else { 0 }, None => real!(74, 0, fd as i64) } }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { fsync(fd) }
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const u8, m: u32) -> i32 {
    if !fs_on() { return real!(83, err(ENOENT), p, m as i64); }
    if fault() { return err(EACCES); }
    let (a, _) = match absolute(&cstr(p)) { Ok(a) => a, Err(e) => return err(e) };
    if find(&a).is_some() { return err(EEXIST); }
    if let Err(e) = parent_ok(&a) { return err(e); }
    touch(&a);
    fs().nodes.push(Node { path: a, dir: true, writes: vec![], size: 0 });
    0
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    if !fs_on() { return real!(87, err(ENOENT), p); }
    let (a, _) = match absolute(&cstr(p)) { Ok(a) => a, Err(e) => return err(e) };
    match find(&a) { None => err(ENOENT), Some(k) => if fs().nodes[k].dir { err(EISDIR) } else { touch(&a); fs().nodes[k].path = vec![b"(removed)".to_vec()]; 0 } }
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const u8) -> i32 {
    if !fs_on() { return real!(84, err(ENOENT), p); }
    let (a, _) = match absolute(&cstr(p)) { Ok(a) => a, Err(e) => return err(e) };
    match find(&a) { None => err(ENOENT), Some(k) => if !fs().nodes[k].dir { err(ENOTDIR) } else { touch(&a); fs().nodes[k].path = vec![b"(removed)".to_vec()]; 0 } }
}
#[no_mangle] pub unsafe extern "C" fn rename(p: *const u8, q: *const u8) -> i32 {
    if !fs_on() { return real!(82, err(ENOENT), p, q); }
    if fault() { return err(EACCES); }
    let (a, _) = match absolute(&cstr(p)) { Ok(a) => a, Err(e) => return err(e) };
    let (b, _) = match absolute(&cstr(q)) { Ok(a) => a, Err(e) => return err(e) };
    let k = match find(&a) { None => return err(ENOENT), Some(k) => k };
    if let Err(e) = parent_ok(&b) { return err(e); }
    if let Some(j) = find(&b) { if j != k { fs().nodes[j].path = vec![b"(removed)".to_vec()] } }
    touch(&a); touch(&b);
    fs().nodes[k].path = b;
    0
}
unsafe fn stat_node(k: usize) -> (u64, u64, u32) { let n = &fs().nodes[k]; (k as u64 + 1, n.size, if n.dir { 0o40755 } else { 0o100644 }) }
unsafe fn fill_stat(k: usize, s: *mut u8) { let (ino, size, mode) = stat_node(k); for i in 0..144 { *s.add(i) = 0 } *(s.add(8) as *mut u64) = ino; *(s.add(16) as *mut u64) = 1; *(s.add(24) as *mut u32) = mode; *(s.add(48) as *mut u64) = size; *(s.add(56) as *mut u64) = 4096 }
#[no_mangle] pub unsafe extern "C" fn statx(dfd: i32, p: *const u8, flags: i32, mask: u32, s: *mut u8) -> i32 {
    if !fs_on() { return real!(332, err(38), dfd as i64, p, flags as i64, mask as i64, s); }
    let k = if flags & 0x1000 != 0 && dfd >= 2000 { match file(dfd) { Some(o) => o.node, None => return err(EBADF) } }
        else { match absolute(&cstr(p)) { Ok((a, t)) => match find(&a) { Some(k) => { if t && !fs().nodes[k].dir { return err(ENOTDIR); } k } None => return err(ENOENT) }, Err(e) => return err(e) } };
    let (ino, size, mode) = stat_node(k);
    for i in 0..256 { *s.add(i) = 0 }
    *(s as *mut u32) = 0xfff; *(s.add(4) as *mut u32) = 4096; *(s.add(16) as *mut u32) = 1; *(s.add(28) as *mut u16) = mode as u16; *(s.add(32) as *mut u64) = ino; *(s.add(40) as *mut u64) = size;
    0
}
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const u8, s: *mut u8) -> i32 { if !fs_on() { return real!(4, err(ENOENT), p, s); } match absolute(&cstr(p)) { Ok((a, _)) => match find(&a) { Some(k) => { fill_stat(k, s); 0 } None => err(ENOENT) }, Err(e) => err(e) } }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const u8, s: *mut u8) -> i32 { stat64(p, s) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, s: *mut u8) -> i32 { match file(fd) { Some(o) => { fill_stat(o.node, s); 0 } None => real!(5, err(EBADF), fd as i64, s) } }
#[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(e: i32, b: *mut u8, n: usize) -> i32 { let t = b"system error\0"; for i in 0..t.len().min(n) { *b.add(i) = t[i] } 0 }
pub struct FsKeep;
impl FsKeep { pub fn drop_dir(p: &str) { if let Ok((a, _)) = absolute(p.as_bytes()) { fs().nodes.retain(|n| n.path != a) } } }
