//! Types as users write them: serde's derive and the standard library's implementations, not the driver's own visitors.
use crate::exec::{ename, jser, mser};
use crate::js::{self, J};
use crate::node::Node;
use crate::nodeser::NS;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use ser_write_json as json;
use ser_write_msgpack as mp;

/// splitmix64
pub struct R(u64);
impl R {
    fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn below(&mut self, n: u64) -> u64 { self.u() % n }
}
pub trait Gen: Sized { fn make(r: &mut R) -> Self; }
macro_rules! ints { ($($t:ty)*) => { $(impl Gen for $t { fn make(r: &mut R) -> $t {
    let x = r.u(); let s = r.below(65) as u32;
    match r.below(6) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => 0, 3 => (x % 40) as $t, _ => (if s == 64 { 0 } else { x >> s }) as $t } } })* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Gen for bool { fn make(r: &mut R) -> bool { r.below(2) == 1 } }
impl Gen for f64 { fn make(r: &mut R) -> f64 { loop {
    let x = match r.below(4) { 0 => f64::from_bits(r.u()), 1 => r.below(2000) as f64 / 8.0, 2 => (r.u() as i64) as f64, _ => [0.1, 1e21, 1e-7, 5e-324, f64::MAX, 1.0 / 3.0, -2.5][r.below(7) as usize] };
    if x.is_finite() && (x != 0.0 || x.is_sign_positive()) { return x } } } }
impl Gen for f32 { fn make(r: &mut R) -> f32 { loop {
    let x = match r.below(3) { 0 => f32::from_bits(r.u() as u32), 1 => r.below(2000) as f32 / 8.0, _ => [0.1, 1e21, 1e-7, 1e-45, f32::MAX, 16777216.0][r.below(6) as usize] };
    if x.is_finite() && (x != 0.0 || x.is_sign_positive()) { return x } } } }
impl Gen for char { fn make(r: &mut R) -> char { loop {
    let x = match r.below(4) { 0 => r.below(128), 1 => r.below(0x800), 2 => r.below(0x10000), _ => r.below(0x110000) };
    if let Some(c) = char::from_u32(x as u32) { return c } } } }
impl Gen for String { fn make(r: &mut R) -> String {
    let n = match r.below(12) { 0 => 0, 1 => 31 + r.below(3), 2 => 250 + r.below(10), n => n };
    (0..n).map(|_| match r.below(8) { 0 => ['"', '\\', '\n', '\u{1}', '\u{7f}', '/'][r.below(6) as usize], 1 => char::make(r), _ => (b'a' + r.below(26) as u8) as char }).collect() } }
impl<T: Gen> Gen for Option<T> { fn make(r: &mut R) -> Self { if r.below(3) == 0 { None } else { Some(T::make(r)) } } }
impl<T: Gen> Gen for Box<T> { fn make(r: &mut R) -> Self { Box::new(T::make(r)) } }
impl<T: Gen> Gen for Vec<T> { fn make(r: &mut R) -> Self { let n = match r.below(9) { 8 => 14 + r.below(4), n => n % 5 }; (0..n).map(|_| T::make(r)).collect() } }
impl<T: Gen> Gen for VecDeque<T> { fn make(r: &mut R) -> Self { Vec::<T>::make(r).into() } }
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> { fn make(r: &mut R) -> Self { let n = r.below(5); (0..n).map(|_| (K::make(r), V::make(r))).collect() } }
impl<K: Gen + Ord> Gen for BTreeSet<K> { fn make(r: &mut R) -> Self { let n = r.below(5); (0..n).map(|_| K::make(r)).collect() } }
impl<T: Gen, const N: usize> Gen for [T; N] { fn make(r: &mut R) -> Self { std::array::from_fn(|_| T::make(r)) } }
macro_rules! tuples { ($(($($t:ident),*))*) => { $(impl<$($t: Gen),*> Gen for ($($t,)*) { #[allow(unused_variables)] fn make(r: &mut R) -> Self { ($($t::make(r),)*) } })* } }
tuples!((A) (A, B) (A, B, C) (A, B, C, D));
impl Gen for () { fn make(_: &mut R) {} }
impl<T: Gen, E: Gen> Gen for Result<T, E> { fn make(r: &mut R) -> Self { if r.below(2) == 0 { Ok(T::make(r)) } else { Err(E::make(r)) } } }
impl Gen for Cow<'static, str> { fn make(r: &mut R) -> Self { Cow::Owned(String::make(r)) } }
impl Gen for serde_bytes::ByteBuf { fn make(r: &mut R) -> Self { let n = r.below(20); serde_bytes::ByteBuf::from((0..n).map(|_| r.u() as u8).collect::<Vec<u8>>()) } }
impl Gen for core::net::IpAddr { fn make(r: &mut R) -> Self { if bool::make(r) { core::net::IpAddr::V4((r.u() as u32).into()) } else { core::net::IpAddr::V6((((r.u() as u128) << 64) | r.u() as u128).into()) } } }
impl Gen for core::net::SocketAddr { fn make(r: &mut R) -> Self { core::net::SocketAddr::new(Gen::make(r), Gen::make(r)) } }
impl Gen for core::time::Duration { fn make(r: &mut R) -> Self { core::time::Duration::new(u64::make(r) / 2, r.below(1_000_000_000) as u32) } }
impl Gen for core::num::NonZeroU16 { fn make(r: &mut R) -> Self { core::num::NonZeroU16::new(u16::make(r).max(1)).unwrap() } }
impl Gen for core::num::Wrapping<i16> { fn make(r: &mut R) -> Self { core::num::Wrapping(Gen::make(r)) } }
impl Gen for core::ops::Range<i32> { fn make(r: &mut R) -> Self { Gen::make(r)..Gen::make(r) } }
impl Gen for core::ops::RangeInclusive<u8> { fn make(r: &mut R) -> Self { Gen::make(r)..=Gen::make(r) } }
impl Gen for core::ops::Bound<i64> { fn make(r: &mut R) -> Self { match r.below(3) { 0 => core::ops::Bound::Unbounded, 1 => core::ops::Bound::Included(Gen::make(r)), _ => core::ops::Bound::Excluded(Gen::make(r)) } } }
impl<T> Gen for core::marker::PhantomData<T> { fn make(_: &mut R) -> Self { core::marker::PhantomData } }

macro_rules! stru { ($(#[$m:meta])* $n:ident { $($(#[$f:meta])* $x:ident : $t:ty),* $(,)? }) => {
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] $(#[$m])* pub struct $n { $($(#[$f])* $x : $t),* }
    impl Gen for $n { #[allow(unused_variables)] fn make(r: &mut R) -> Self { $n { $($x : Gen::make(r)),* } } } } }
/// an enum, and its generator: one arm per variant
macro_rules! enu { ($(#[$m:meta])* $n:ident { $($(#[$f:meta])* $v:ident $(($($t:ty),*))? $({ $($(#[$g:meta])* $x:ident : $u:ty),* })?),* $(,)? } $($arm:expr),* ) => {
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] $(#[$m])* pub enum $n { $($(#[$f])* $v $(($($t),*))? $({ $($(#[$g])* $x : $u),* })?),* }
    impl Gen for $n { fn make(r: &mut R) -> Self { type F = fn(&mut R) -> $n; let fs: &[F] = &[$($arm),*]; fs[r.below(fs.len() as u64) as usize](r) } } } }

stru!(Plain { a: u8, b: i64, c: bool, d: char, e: String, f: Option<u16>, g: Vec<i32>, h: f64 });
stru!(Nested { p: Plain2, q: Option<Plain2>, r: Vec<Plain2>, s: (u8, String), t: [u16; 3], u: (), v: UnitS, w: New, x: Pair });
stru!(Plain2 { x: i8, y: f32 });
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, PartialOrd)] pub struct UnitS;
impl Gen for UnitS { fn make(_: &mut R) -> Self { UnitS } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, PartialOrd, Eq, Ord)] pub struct New(u32);
impl Gen for New { fn make(r: &mut R) -> Self { New(Gen::make(r)) } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, PartialOrd)] pub struct Pair(i16, Option<bool>);
impl Gen for Pair { fn make(r: &mut R) -> Self { Pair(Gen::make(r), Gen::make(r)) } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, PartialOrd, Eq, Ord)] #[serde(transparent)] pub struct Trans { inner: String }
impl Gen for Trans { fn make(r: &mut R) -> Self { Trans { inner: Gen::make(r) } } }
enu!(Ext { Unit, New(u32), Tup(u8, String), Stru { a: bool, b: Option<i8> }, Empty(), NoFields {}, Bytes(serde_bytes::ByteBuf), Rec(Box<Ext>) }
    |_| Ext::Unit, |r| Ext::New(Gen::make(r)), |r| Ext::Tup(Gen::make(r), Gen::make(r)), |r| Ext::Stru { a: Gen::make(r), b: Gen::make(r) }, |_| Ext::Empty(), |_| Ext::NoFields {}, |r| Ext::Bytes(Gen::make(r)), |r| Ext::Rec(Gen::make(r)));
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy, PartialOrd, Eq, Ord)] pub enum Key { Alpha, #[serde(rename = "be\"ta")] Beta, Gamma }
impl Gen for Key { fn make(r: &mut R) -> Self { [Key::Alpha, Key::Beta, Key::Gamma][r.below(3) as usize] } }
stru!(Maps { a: BTreeMap<String, u8>, b: BTreeMap<i16, Option<bool>>, c: BTreeMap<Key, Vec<u8>>, d: BTreeMap<bool, char>, e: BTreeMap<char, String>, f: BTreeMap<New, Ext>, g: BTreeMap<u64, BTreeMap<i64, ()>>, h: BTreeMap<Trans, UnitS>, i: BTreeSet<u32> });
stru!(Bytes { #[serde(with = "serde_bytes")] a: Vec<u8>, b: serde_bytes::ByteBuf, c: Option<serde_bytes::ByteBuf>, d: Vec<serde_bytes::ByteBuf>, e: Vec<u8> });
stru!(Skips { a: u8, #[serde(default, skip_serializing_if = "Option::is_none")] b: Option<String>, #[serde(default, skip_serializing_if = "Vec::is_empty")] c: Vec<u8>, #[serde(skip_serializing_if = "Option::is_none", default)] d: Option<i32>, e: bool });
stru!(#[serde(rename_all = "camelCase", deny_unknown_fields)] Renamed { first_name: String, #[serde(rename = "")] empty: u8, #[serde(alias = "other")] third_one: i8, #[serde(rename = "quo\"te\\\n")] odd: bool });
stru!(#[serde(default)] Defaults { a: u8, b: String, c: Option<bool> });
impl Default for Defaults { fn default() -> Self { Defaults { a: 7, b: "dflt".into(), c: Some(true) } } }
enu!(#[serde(untagged)] Untagged { U(u64), I(i64), B(bool), S(String), N(()), M(BTreeMap<String, Untagged>), L(Vec<Untagged>) }
    |r| Untagged::U(Gen::make(r)), |r| Untagged::I(-1 - (u32::make(r) as i64)), |r| Untagged::B(Gen::make(r)), |r| Untagged::S(Gen::make(r)), |_| Untagged::N(()),
    |r| Untagged::M((0..r.below(2)).map(|_| (String::make(r), Untagged::make(r))).collect()), |r| Untagged::L((0..r.below(3)).map(|_| Untagged::make(r)).collect()));
enu!(#[serde(tag = "t")] Tagged { A { x: u8, y: Option<String> }, #[serde(rename = "b b")] B { v: Vec<i32>, t2: char }, C, D(Plain3) }
    |r| Tagged::A { x: Gen::make(r), y: Gen::make(r) }, |r| Tagged::B { v: Gen::make(r), t2: Gen::make(r) }, |_| Tagged::C, |r| Tagged::D(Gen::make(r)));
stru!(Plain3 { m: i64, n: bool, o: Vec<Option<u8>> });
enu!(#[serde(tag = "t", content = "c")] Adjacent { A(u8), B { x: i32, y: String }, C, D(u8, bool), E(Vec<Key>) }
    |r| Adjacent::A(Gen::make(r)), |r| Adjacent::B { x: Gen::make(r), y: Gen::make(r) }, |_| Adjacent::C, |r| Adjacent::D(Gen::make(r), Gen::make(r)), |r| Adjacent::E(Gen::make(r)));
stru!(Flat { a: u8, #[serde(flatten)] rest: FlatIn, z: bool });
stru!(FlatIn { b: i32, c: Option<String>, d: Vec<u16> });
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] pub struct FlatMap { id: u32, #[serde(flatten)] extra: BTreeMap<String, Untagged> }
impl Gen for FlatMap { fn make(r: &mut R) -> Self { FlatMap { id: Gen::make(r), extra: (0..r.below(4)).map(|i| (format!("k{i}{}", String::make(r)), Untagged::make(r))).collect() } } }
stru!(Generic2 { a: Option<Result<u8, String>>, b: Box<(i8,)>, c: Vec<(u8, i8, bool)>, d: [[u8; 2]; 2], e: VecDeque<Option<char>>, f: Cow<'static, str> });
stru!(Std { a: core::time::Duration, b: core::num::NonZeroU16, c: core::num::Wrapping<i16>, e: core::ops::RangeInclusive<u8>, g: core::marker::PhantomData<u8>, h: BTreeSet<String> });
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] pub struct Std2 { a: core::ops::Range<i32>, b: core::ops::Bound<i64>, c: core::net::IpAddr, d: core::net::SocketAddr }
impl Gen for Std2 { fn make(r: &mut R) -> Self { Std2 { a: Gen::make(r), b: Gen::make(r), c: Gen::make(r), d: Gen::make(r) } } }
stru!(Tree { v: u8, kids: Vec<Tree0> });
stru!(Tree0 { v: Option<Box<Tree1>>, w: Vec<Ext> });
stru!(Tree1 { e: Ext, k: Key, n: Nested });
enu!(Idx { A0, A1, A2(u8), A3, A4 { x: u8 }, A5, A6, A7(u8, u8) } |_| Idx::A0, |_| Idx::A1, |r| Idx::A2(Gen::make(r)), |_| Idx::A3, |r| Idx::A4 { x: Gen::make(r) }, |_| Idx::A5, |_| Idx::A6, |r| Idx::A7(Gen::make(r), Gen::make(r)));
stru!(Idxs { a: Vec<Idx>, b: Option<Idx>, c: BTreeMap<u8, Idx> });

/// a type that borrows from the input
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Borrowed<'a> { #[serde(borrow)] a: &'a str, #[serde(with = "serde_bytes")] b: &'a [u8], #[serde(borrow)] c: Cow<'a, str>, #[serde(borrow)] d: Vec<&'a str>, #[serde(borrow)] e: BTreeMap<&'a str, &'a str> }

macro_rules! with_type { ($id:expr, $t:ident, $body:block) => { match $id {
    "Plain" => { type $t = Plain; $body } "Nested" => { type $t = Nested; $body } "Ext" => { type $t = Ext; $body } "Maps" => { type $t = Maps; $body }
    "Bytes" => { type $t = Bytes; $body } "Skips" => { type $t = Skips; $body } "Renamed" => { type $t = Renamed; $body } "Defaults" => { type $t = Defaults; $body }
    "Untagged" => { type $t = Untagged; $body } "Tagged" => { type $t = Tagged; $body } "Adjacent" => { type $t = Adjacent; $body } "Flat" => { type $t = Flat; $body }
    "FlatMap" => { type $t = FlatMap; $body } "Generic2" => { type $t = Generic2; $body } "Std" => { type $t = Std; $body } "Std2" => { type $t = Std2; $body }
    "Tree" => { type $t = Tree; $body } "Idxs" => { type $t = Idxs; $body } "VecPlain2" => { type $t = Vec<Plain2>; $body } "Tuple4" => { type $t = (u8, String, Option<New>, Vec<bool>); $body }
    "OptOpt" => { type $t = Option<Vec<Option<i64>>>; $body } "Pair" => { type $t = Pair; $body } "Idx" => { type $t = Idx; $body } "Plain2" => { type $t = Plain2; $body } "UnitS" => { type $t = UnitS; $body }
    "New" => { type $t = New; $body } "String" => { type $t = String; $body } "MapKeyI16" => { type $t = BTreeMap<i16, Option<bool>>; $body } "MapKeyIp" => { type $t = BTreeMap<core::net::IpAddr, u8>; $body }
    id => panic!("no type {id}") } } }

fn decode<T: DeserializeOwned>(j: bool, fl: i64, o: &[u8]) -> Result<(T, usize), String> {
    if j {
        let mut b = o.to_vec();
        (match fl { 0 => json::from_mut_slice::<T>(&mut b), 1 => json::from_mut_slice_hex_bytes(&mut b), _ => json::from_mut_slice_base64_bytes(&mut b) })
            .map(|x| (x, o.len())).map_err(|e| ename::<(), _>(&Err(e)))
    } else { mp::from_slice::<T>(o).map_err(|e| ename::<(), _>(&Err(e))) }
}
/// a generated value of the type: serialized, and read back
fn there_and_back<T: Gen + Serialize + DeserializeOwned + PartialEq>(j: bool, fl: i64, seed: u64) -> J {
    let x = T::make(&mut R(seed));
    let w = x.serialize(NS { human: j }).unwrap();
    let (e, o, _) = if j { jser(fl, &x) } else { mser(fl, &x) };
    let (e2, same) = if !e.is_empty() { (String::new(), 1) } else { match decode::<T>(j, fl, &o) { Ok((y, n)) => (String::new(), (y == x && n == o.len()) as i64), Err(e) => (e, 0) } };
    js::obj(vec![("e", js::s(&e)), ("o", js::bytes(&o)), ("w", w.to_j()), ("e2", js::s(&e2)), ("back", J::I(same))])
}
fn plain(n: &mut Node) {
    if n.k != "bool" { n.n = 0 }
    for c in n.c.iter_mut() { plain(c) }
}
/// any input, decoded into the type
fn read<T: Serialize + DeserializeOwned>(j: bool, fl: i64, input: &[u8]) -> J {
    let r = decode::<T>(j, fl, input);
    let (e, v, n) = match r { Ok((x, n)) => { let mut v = x.serialize(NS { human: j }).unwrap(); plain(&mut v); (String::new(), v, n as i64) } Err(e) => (e, Node::leaf("null"), -1) };
    js::obj(vec![("e", js::s(&e)), ("v", v.to_j()), ("n", J::I(n))])
}
/// serialized, and read back borrowing from the buffer
fn borrowed(j: bool, fl: i64, seed: u64) -> J {
    let r = &mut R(seed);
    let (a, b, c) = (String::make(r), serde_bytes::ByteBuf::make(r).into_vec(), String::make(r));
    let d = Vec::<String>::make(r); let e = BTreeMap::<String, String>::make(r);
    let x = Borrowed { a: &a, b: &b, c: Cow::Borrowed(&c), d: d.iter().map(|s| &s[..]).collect(), e: e.iter().map(|(k, v)| (&k[..], &v[..])).collect() };
    let w = x.serialize(NS { human: j }).unwrap();
    let (err, o, _) = if j { jser(fl, &x) } else { mser(fl, &x) };
    let mut buf = o.clone();
    let (e2, same) = if j {
        let r = match fl { 0 => json::from_mut_slice::<Borrowed>(&mut buf), 1 => json::from_mut_slice_hex_bytes(&mut buf), _ => json::from_mut_slice_base64_bytes(&mut buf) };
        (ename(&r), r.map(|y| y == x).unwrap_or(false))
    } else { let r = mp::from_slice::<Borrowed>(&buf); (ename(&r), r.map(|(y, n)| y == x && n == o.len()).unwrap_or(false)) };
    js::obj(vec![("e", js::s(&err)), ("o", js::bytes(&o)), ("w", w.to_j()), ("e2", js::s(&e2)), ("back", J::I(same as i64))])
}
pub fn op_ty(st: &J) -> J {
    let id = st.get("id").str(); let j = st.get("fmt").str() == "j"; let fl = st.get("fl").int(); let seed = st.get("seed").int() as u64;
    if id == "Borrowed" { return borrowed(j, fl, seed) }
    with_type!(id, T, { there_and_back::<T>(j, fl, seed) })
}
pub fn op_tyd(st: &J) -> J {
    let j = st.get("fmt").str() == "j";
    with_type!(st.get("id").str(), T, { read::<T>(j, st.get("fl").int(), &st.get("in").bytes()) })
}
