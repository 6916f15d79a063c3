//! The data-model tree shared with the specification (spec/Data.tla), and its serialization.
use crate::js::{self, J};
use serde::ser::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt;
use std::sync::Mutex;

#[derive(Debug, Clone, PartialEq)]
pub struct Node { pub k: &'static str, pub n: i64, pub i: u32, pub b: Vec<u8>, pub c: Vec<Node> }

/// names have to be &'static str in serde
pub fn intern(s: &str) -> &'static str {
    static T: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = T.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) { return x }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}
pub fn intern_list(v: Vec<&'static str>) -> &'static [&'static str] {
    static T: Mutex<Option<HashMap<Vec<&'static str>, &'static [&'static str]>>> = Mutex::new(None);
    let mut g = T.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(&v) { return x }
    let l: &'static [&'static str] = Box::leak(v.clone().into_boxed_slice());
    m.insert(v, l);
    l
}

impl Node {
    pub fn from_j(j: &J) -> Node {
        Node { k: intern(j.get("k").str()), n: j.get("n").int(), i: j.get("i").int() as u32,
               b: j.get("b").bytes(), c: j.get("c").arr().iter().map(Node::from_j).collect() }
    }
    pub fn to_j(&self) -> J {
        js::obj(vec![("k", js::s(self.k)), ("n", J::I(self.n)), ("i", J::I(self.i as i64)), ("b", js::bytes(&self.b)),
                     ("c", J::A(self.c.iter().map(Node::to_j).collect()))])
    }
    pub fn leaf(k: &'static str) -> Node { Node { k, n: 0, i: 0, b: vec![], c: vec![] } }
    pub fn text(k: &'static str, b: &[u8]) -> Node { Node { k, n: 0, i: 0, b: b.to_vec(), c: vec![] } }
    pub fn wrap(k: &'static str, c: Vec<Node>) -> Node { Node { k, n: 0, i: 0, b: vec![], c } }
    pub fn boolean(x: bool) -> Node { Node { k: "bool", n: x as i64, i: 0, b: vec![], c: vec![] } }
    pub fn int(k: &'static str, x: i128) -> Node {
        let mut b = vec![(x < 0) as u8];
        b.extend_from_slice(&(x.unsigned_abs() as u64).to_be_bytes());
        Node::text(k, &b)
    }
    pub fn any_int(x: i128) -> Node { Node::int(if x < 0 { "i64" } else { "u64" }, x) }
    pub fn f32(x: f32) -> Node { Node::text("f32", &x.to_bits().to_be_bytes()) }
    pub fn f64(x: f64) -> Node { Node::text("f64", &x.to_bits().to_be_bytes()) }
    pub fn as_int(&self) -> i128 {
        let mut a = [0u8; 8]; a.copy_from_slice(&self.b[1..9]);
        let m = u64::from_be_bytes(a) as i128;
        if self.b[0] == 1 { -m } else { m }
    }
    pub fn as_f32(&self) -> f32 { if self.b.is_empty() { f32::NAN } else { f32::from_bits(u32::from_be_bytes(self.b[..4].try_into().unwrap())) } }
    pub fn as_f64(&self) -> f64 { if self.b.is_empty() { f64::NAN } else { f64::from_bits(u64::from_be_bytes(self.b[..8].try_into().unwrap())) } }
    pub fn name(&self) -> &'static str { intern(self.text_str()) }
    pub fn text_str(&self) -> &str { core::str::from_utf8(&self.b).unwrap() }
}

struct Shown<'a> { chunks: &'a [Node], mode: i64, turn: Cell<usize> }
impl fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = self.turn.get();
        self.turn.set(t + 1);
        if self.mode == 2 {
            return f.write_str(self.chunks[if t == 0 { 0 } else { 1 }].text_str());
        }
        for c in self.chunks { f.write_str(c.text_str())?; }
        if self.mode == 1 { Err(fmt::Error) } else { Ok(()) }
    }
}

fn turn(c: &[Node]) -> bool { c.iter().map(|x| x.b.iter().map(|&b| b as usize).sum::<usize>() + x.c.len()).sum::<usize>() % 3 == 1 }
struct Pairs<'a>(core::slice::Chunks<'a, Node>);
impl<'a> Iterator for Pairs<'a> {
    type Item = (&'a Node, &'a Node);
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|e| (&e[0], &e[1])) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}

impl Serialize for Node {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let c = &self.c;
        let ln = self.n.max(0) as usize;
        match self.k {
            "bool" => s.serialize_bool(self.n == 1),
            "i8" => s.serialize_i8(self.as_int() as i8),
            "i16" => s.serialize_i16(self.as_int() as i16),
            "i32" => s.serialize_i32(self.as_int() as i32),
            "i64" => s.serialize_i64(self.as_int() as i64),
            "u8" => s.serialize_u8(self.as_int() as u8),
            "u16" => s.serialize_u16(self.as_int() as u16),
            "u32" => s.serialize_u32(self.as_int() as u32),
            "u64" => s.serialize_u64(self.as_int() as u64),
            "i128" => s.serialize_i128(self.n as i128),
            "f32" => s.serialize_f32(self.as_f32()),
            "f64" => s.serialize_f64(self.as_f64()),
            "char" => s.serialize_char(self.text_str().chars().next().unwrap()),
            "str" => s.serialize_str(self.text_str()),
            "bytes" => s.serialize_bytes(&self.b),
            "cstr" => s.collect_str(&Shown { chunks: c, mode: self.n, turn: Cell::new(0) }),
            "none" => s.serialize_none(),
            "some" => s.serialize_some(&c[0]),
            "unit" => s.serialize_unit(),
            "ustruct" => s.serialize_unit_struct("U"),
            "uvar" => s.serialize_unit_variant("E", self.i, self.name()),
            "nstruct" => s.serialize_newtype_struct("N", &c[0]),
            "nvar" => s.serialize_newtype_variant("E", self.i, self.name(), &c[0]),
            // the ways serde offers for a collection, one or the other by the content
            "seq" if turn(c) && self.n == c.len() as i64 => s.collect_seq(c),
            "seq" if turn(c) && self.n < 0 => s.collect_seq(c.iter().filter(|_| true)),
            "map" if turn(c) && self.n >= 0 && ln * 2 == c.len() => s.collect_map(Pairs(c.chunks(2))),
            "map" if turn(c) && self.n < 0 => s.collect_map(Pairs(c.chunks(2)).filter(|_| true)),
            "seq" => { let mut q = s.serialize_seq(if self.n < 0 { None } else { Some(ln) })?;
                for x in c { q.serialize_element(x)?; } q.end() }
            "tuple" => { let mut q = s.serialize_tuple(ln)?; for x in c { q.serialize_element(x)?; } q.end() }
            "tstruct" => { let mut q = s.serialize_tuple_struct("T", ln)?; for x in c { q.serialize_field(x)?; } q.end() }
            "tvar" => { let mut q = s.serialize_tuple_variant("E", self.i, self.name(), ln)?; for x in c { q.serialize_field(x)?; } q.end() }
            "map" => { let mut q = s.serialize_map(if self.n < 0 { None } else { Some(ln) })?;
                for (j, e) in c.chunks(2).enumerate() {
                    // both ways serde offers for an entry
                    if (j + c.len() / 2) % 2 == 0 { q.serialize_key(&e[0])?; q.serialize_value(&e[1])?; }
                    else { q.serialize_entry(&e[0], &e[1])?; }
                } q.end() }
            "struct" => { let mut q = s.serialize_struct("S", ln)?;
                for x in c { if x.k == "skip" { q.skip_field(x.name())?; } else { q.serialize_field(x.name(), &x.c[0])?; } } q.end() }
            "svar" => { let mut q = s.serialize_struct_variant("E", self.i, self.name(), ln)?;
                for x in c { if x.k == "skip" { q.skip_field(x.name())?; } else { q.serialize_field(x.name(), &x.c[0])?; } } q.end() }
            "hr" => { let h = s.is_human_readable(); s.serialize_bool(h) }
            "fail" => Err(S::Error::custom(if self.b.is_empty() { "value refuses" } else { self.text_str() })),
            k => panic!("bad value node {k}"),
        }
    }
}
impl Node { pub fn from_j_opt(j: &J) -> Node { if let J::O(_) = j { Node::from_j(j) } else { Node::leaf("any") } } }
