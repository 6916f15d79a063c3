//! Every SerWrite implementation of the crate, and sinks that fail on purpose.
use crate::js::{self, J};
use ser_write::{SerError, SerWrite, SliceWriter};

pub type R = Result<(), SerError>;

/// hides the concrete sink but forwards each method to the same method
pub struct Fwd<'a>(pub &'a mut dyn SerWrite<Error = SerError>);
impl SerWrite for Fwd<'_> {
    type Error = SerError;
    fn write(&mut self, b: &[u8]) -> R { self.0.write(b) }
    fn write_byte(&mut self, b: u8) -> R { self.0.write_byte(b) }
    fn write_str(&mut self, s: &str) -> R { self.0.write_str(s) }
}
/// the sink of plain serialization runs: collects everything (no_std builds have no Vec sink)
pub struct Buf(pub Vec<u8>);
impl SerWrite for Buf { type Error = SerError; fn write(&mut self, b: &[u8]) -> R { self.0.extend_from_slice(b); Ok(()) } }

#[derive(Debug, Clone, PartialEq)]
pub struct MyErr(pub u32);
impl std::fmt::Display for MyErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "mine{}", self.0) } }
/// fails at the at-th call (0-based), for good or only once; keeps what it accepted
pub struct Failing { pub got: Vec<u8>, pub calls: usize, pub at: usize, pub sticky: bool, pub hit: bool }
impl SerWrite for Failing {
    type Error = MyErr;
    fn write(&mut self, b: &[u8]) -> Result<(), MyErr> {
        let c = self.calls; self.calls += 1;
        if c == self.at || (self.sticky && c > self.at) { self.hit = true; return Err(MyErr(self.at as u32 + 7)) }
        self.got.extend_from_slice(b); Ok(())
    }
}
/// accepts bytes up to a capacity, one write at a time, all or nothing
pub struct Bounded { pub got: Vec<u8>, pub cap: usize, pub hit: bool }
impl SerWrite for Bounded {
    type Error = MyErr;
    fn write(&mut self, b: &[u8]) -> Result<(), MyErr> {
        if self.got.len() + b.len() > self.cap { self.hit = true; return Err(MyErr(self.cap as u32)) }
        self.got.extend_from_slice(b); Ok(())
    }
}


pub fn have(kind: &str) -> bool {
    let std = cfg!(feature = "std");
    let al = std || cfg!(feature = "alloc");
    match kind { "vec" | "vecdeque" | "smallvec" | "tinyvecvec" | "refvec" => al,
                 "curvec" | "curslice" | "curarr" | "curbox" | "currefvec" => std, _ => true }
}

macro_rules! caps { ($cap:expr, $f:ident, $n:ident, $body:block) => {
    match $cap { 0 => { const $n: usize = 0; $body } 1 => { const $n: usize = 1; $body } 2 => { const $n: usize = 2; $body }
        3 => { const $n: usize = 3; $body } 4 => { const $n: usize = 4; $body } 7 => { const $n: usize = 7; $body }
        8 => { const $n: usize = 8; $body } 16 => { const $n: usize = 16; $body } 32 => { const $n: usize = 32; $body }
        64 => { const $n: usize = 64; $body } c => panic!("capacity {c}") } } }

/// the part of a cursor's buffer that lies before its position
#[cfg(feature = "std")]
fn before<X: AsRef<[u8]>>(c: &std::io::Cursor<X>) -> Vec<u8> { let b = c.get_ref().as_ref(); b[..b.len().min(c.position() as usize)].to_vec() }

/// Run f on a sink of the kind; get(w) after each step gives the content. f is called with (sink, content reader).
pub fn with_sink(kind: &str, cap: usize, f: &mut dyn FnMut(&mut dyn Target)) {
    match kind {
        #[cfg(any(feature = "std", feature = "alloc"))]
        "vec" => f(&mut T { w: Vec::<u8>::new(), g: |v: &Vec<u8>| v.clone() }),
        #[cfg(any(feature = "std", feature = "alloc"))]
        "refvec" => { let mut v = Vec::<u8>::new(); f(&mut T { w: &mut v, g: |v: &&mut Vec<u8>| v.to_vec() }) }
        #[cfg(any(feature = "std", feature = "alloc"))]
        "vecdeque" => { let mut d = std::collections::VecDeque::<u8>::with_capacity(8);
            // a deque whose ring has already turned
            for i in 0..cap % 8 { d.push_back(i as u8); } for _ in 0..cap % 8 { d.pop_front(); }
            f(&mut T { w: d, g: |v: &std::collections::VecDeque<u8>| v.iter().copied().collect() }) }
        #[cfg(any(feature = "std", feature = "alloc"))]
        "smallvec" => caps!(cap, f, N, { f(&mut T { w: smallvec::SmallVec::<[u8; N]>::new(), g: |v: &smallvec::SmallVec<[u8; N]>| v.to_vec() }) }),
        #[cfg(any(feature = "std", feature = "alloc"))]
        "tinyvecvec" => caps!(cap, f, N, { f(&mut T { w: tinyvec::TinyVec::<[u8; N]>::new(), g: |v: &tinyvec::TinyVec<[u8; N]>| v.to_vec() }) }),
        #[cfg(feature = "std")]
        "curvec" => f(&mut T { w: std::io::Cursor::new(Vec::<u8>::new()), g: |c: &std::io::Cursor<Vec<u8>>| before(c) }),
        #[cfg(feature = "std")]
        "currefvec" => { let mut v = vec![0u8; cap]; f(&mut T { w: std::io::Cursor::new(&mut v), g: |c: &std::io::Cursor<&mut Vec<u8>>| before(c) }) }
        #[cfg(feature = "std")]
        "curslice" => { let mut v = vec![0u8; cap]; f(&mut T { w: std::io::Cursor::new(&mut v[..]), g: |c: &std::io::Cursor<&mut [u8]>| before(c) }) }
        #[cfg(feature = "std")]
        "curbox" => f(&mut T { w: std::io::Cursor::new(vec![0u8; cap].into_boxed_slice()), g: |c: &std::io::Cursor<Box<[u8]>>| before(c) }),
        #[cfg(feature = "std")]
        "curarr" => caps!(cap, f, N, { f(&mut T { w: std::io::Cursor::new([0u8; N]), g: |c: &std::io::Cursor<[u8; N]>| before(c) }) }),
        "arrayvec" => caps!(cap, f, N, { f(&mut T { w: arrayvec::ArrayVec::<u8, N>::new(), g: |v: &arrayvec::ArrayVec<u8, N>| v.to_vec() }) }),
        "heapless" => caps!(cap, f, N, { f(&mut T { w: heapless::Vec::<u8, N>::new(), g: |v: &heapless::Vec<u8, N>| v.to_vec() }) }),
        "heapless8" => caps!(cap, f, N, { f(&mut T { w: heapless::Vec::<u8, N, u8>::new(), g: |v: &heapless::Vec<u8, N, u8>| v.to_vec() }) }),
        "heaplessview" => caps!(cap, f, N, { let mut v = heapless::Vec::<u8, N>::new(); let r: &mut heapless::VecView<u8> = v.as_mut_view();
            f(&mut View(r)) }),
        "tinyvec" => caps!(cap, f, N, { f(&mut T { w: tinyvec::ArrayVec::<[u8; N]>::new(), g: |v: &tinyvec::ArrayVec<[u8; N]>| v.to_vec() }) }),
        "tinyslice" => { let mut b = vec![0u8; cap]; f(&mut T { w: tinyvec::SliceVec::from_slice_len(&mut b, 0), g: |v: &tinyvec::SliceVec<u8>| v.to_vec() }) }
        "slice" => { let mut b = vec![0xEEu8; cap]; f(&mut Sl(Some(SliceWriter::new(&mut b)))) }
        "refslice" => { let mut b = vec![0xEEu8; cap]; let mut w = SliceWriter::new(&mut b); f(&mut T { w: &mut w, g: |v: &&mut SliceWriter| v.as_ref().to_vec() }) }
        k => panic!("no sink {k}"),
    }
}

pub trait Target {
    fn sink(&mut self) -> &mut dyn SerWrite<Error = SerError>;
    fn content(&mut self) -> Vec<u8>;
    /// len, capacity, rem_capacity, is_empty
    fn stats(&mut self) -> [i64; 4] { [-1; 4] }
    fn clear(&mut self);
    /// what a user may do to the container between writes: take the first byte, add one (if there is room)
    fn pop(&mut self) {}
    fn push(&mut self, _b: u8) {}
    /// a cursor's position set anywhere; its position and all of its buffer
    fn seek(&mut self, _p: u64) {}
    fn cursor(&self) -> Option<(i64, Vec<u8>)> { None }
    fn split(&mut self) -> Vec<u8> { vec![] }
    fn fmt_write(&mut self, s: &str) -> bool { self.sink().write_str(s).is_ok() }
}
struct T<W, G> { w: W, g: G }
impl<W: SerWrite<Error = SerError> + User, G: Fn(&W) -> Vec<u8>> Target for T<W, G> {
    fn sink(&mut self) -> &mut dyn SerWrite<Error = SerError> { &mut self.w }
    fn content(&mut self) -> Vec<u8> { (self.g)(&self.w) }
    fn clear(&mut self) { self.w.u_clear() }
    fn pop(&mut self) { self.w.u_pop() }
    fn push(&mut self, b: u8) { self.w.u_push(b) }
    fn seek(&mut self, p: u64) { self.w.u_seek(p) }
    fn cursor(&self) -> Option<(i64, Vec<u8>)> { self.w.u_cursor() }
}
/// the container's own methods
pub trait User { fn u_clear(&mut self); fn u_pop(&mut self) {} fn u_push(&mut self, _b: u8) {} fn u_seek(&mut self, _p: u64) {} fn u_cursor(&self) -> Option<(i64, Vec<u8>)> { None } }
impl<U: User + ?Sized> User for &mut U { fn u_clear(&mut self) { (**self).u_clear() } fn u_pop(&mut self) { (**self).u_pop() } fn u_push(&mut self, b: u8) { (**self).u_push(b) } }
macro_rules! user { ($($n:ident)?; $t:ty) => { impl $(<const $n: usize>)? User for $t {
    fn u_clear(&mut self) { self.clear() }
    fn u_pop(&mut self) { if !self.is_empty() { self.remove(0); } }
    fn u_push(&mut self, b: u8) { if self.len() < self.capacity() { let _ = self.push(b); } } } } }
user!(N; arrayvec::ArrayVec<u8, N>);
user!(N; heapless::Vec<u8, N>);
user!(N; heapless::Vec<u8, N, u8>);
user!(; heapless::VecView<u8>);
user!(N; tinyvec::ArrayVec<[u8; N]>);
user!(; tinyvec::SliceVec<'_, u8>);
macro_rules! grow { ($($n:ident)?; $t:ty) => { #[cfg(any(feature = "std", feature = "alloc"))] impl $(<const $n: usize>)? User for $t {
    fn u_clear(&mut self) { self.clear() }
    fn u_pop(&mut self) { if !self.is_empty() { self.remove(0); } }
    fn u_push(&mut self, b: u8) { self.push(b) } } } }
grow!(; Vec<u8>);
grow!(N; tinyvec::TinyVec<[u8; N]>);
#[cfg(any(feature = "std", feature = "alloc"))]
impl<const N: usize> User for smallvec::SmallVec<[u8; N]> where [u8; N]: smallvec::Array<Item = u8> {
    fn u_clear(&mut self) { self.clear() } fn u_pop(&mut self) { if !self.is_empty() { self.remove(0); } } fn u_push(&mut self, b: u8) { self.push(b) } }
impl User for std::collections::VecDeque<u8> { fn u_clear(&mut self) { self.clear() } fn u_pop(&mut self) { self.pop_front(); } fn u_push(&mut self, b: u8) { self.push_back(b) } }
impl User for SliceWriter<'_> { fn u_clear(&mut self) { self.clear() } }
impl<X: AsRef<[u8]>> User for std::io::Cursor<X> {
    fn u_clear(&mut self) { self.set_position(0) }
    fn u_seek(&mut self, p: u64) { self.set_position(p) }
    fn u_cursor(&self) -> Option<(i64, Vec<u8>)> { Some((self.position() as i64, self.get_ref().as_ref().to_vec())) }
}
struct View<'a>(&'a mut heapless::VecView<u8>);
impl SerWrite for View<'_> { type Error = SerError;
    fn write(&mut self, b: &[u8]) -> R { SerWrite::write(self.0, b) }
    fn write_byte(&mut self, b: u8) -> R { SerWrite::write_byte(self.0, b) }
    fn write_str(&mut self, b: &str) -> R { SerWrite::write_str(self.0, b) } }
impl Target for View<'_> {
    fn sink(&mut self) -> &mut dyn SerWrite<Error = SerError> { self }
    fn content(&mut self) -> Vec<u8> { self.0.as_slice().to_vec() }
    fn clear(&mut self) { self.0.u_clear() }
    fn pop(&mut self) { self.0.u_pop() }
    fn push(&mut self, b: u8) { self.0.u_push(b) }
}
struct Sl<'a>(Option<SliceWriter<'a>>);
impl Target for Sl<'_> {
    fn sink(&mut self) -> &mut dyn SerWrite<Error = SerError> { self.0.as_mut().unwrap() }
    fn content(&mut self) -> Vec<u8> { let w = self.0.as_mut().unwrap(); let a = w.as_ref().to_vec(); let b = w.as_mut().to_vec(); if a == b { a } else { vec![1, 2, 3, 4, 5, 6, 7] } }
    fn stats(&mut self) -> [i64; 4] { let w = self.0.as_ref().unwrap(); [w.len() as i64, w.capacity() as i64, w.rem_capacity() as i64, w.is_empty() as i64] }
    fn clear(&mut self) { self.0.as_mut().unwrap().clear() }
    fn split(&mut self) -> Vec<u8> { let (h, w) = self.0.take().unwrap().split(); let h = h.to_vec(); self.0 = Some(w); h }
    fn fmt_write(&mut self, s: &str) -> bool { std::fmt::Write::write_str(self.0.as_mut().unwrap(), s).is_ok() }
}

pub fn op_sink(st: &J) -> J {
    let kind = st.get("kind").str();
    if !have(kind) { return J::Null }
    let mut out = vec![];
    with_sink(kind, st.get("cap").int() as usize, &mut |t: &mut dyn Target| {
        for op in st.get("ops").arr() {
            let b = op.get("b").bytes();
            let mut ok = true; let mut h = vec![];
            let r = |x: R| match x { Ok(()) => true, Err(SerError::BufferFull) => false, #[allow(unreachable_patterns)] Err(_) => panic!("other error") };
            match op.get("o").str() {
                "w" => ok = r(t.sink().write(&b)),
                "b" => ok = r(t.sink().write_byte(b[0])),
                "s" => ok = r(t.sink().write_str(core::str::from_utf8(&b).unwrap())),
                "f" => ok = t.fmt_write(core::str::from_utf8(&b).unwrap()),
                "clear" => t.clear(),
                "pop" => t.pop(),
                "push" => t.push(b[0]),
                "seek" => t.seek(b[0] as u64),
                "split" => h = t.split(),
                o => panic!("sink op {o}"),
            }
            let mut s = t.stats();
            if let Some((pos, whole)) = t.cursor() { s[0] = pos; h = whole }
            out.push(js::obj(vec![("ok", J::B(ok)), ("c", js::bytes(&t.content())), ("h", js::bytes(&h)),
                                  ("st", J::A(s.iter().map(|&x| J::I(x)).collect()))]));
        }
    });
    js::obj(vec![("r", J::A(out))])
}
