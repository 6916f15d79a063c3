//! Any Serialize value as a data-model tree.
use crate::node::Node;
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct NErr(pub String);
impl fmt::Display for NErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for NErr {}
impl Error for NErr { fn custom<T: fmt::Display>(m: T) -> Self { NErr(m.to_string()) } }

#[derive(Clone, Copy)]
pub struct NS { pub human: bool }
pub struct Acc { h: NS, n: Node }

impl Acc { fn push<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), NErr> { let x = t.serialize(self.h)?; self.n.c.push(x); Ok(()) }
    fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> Result<(), NErr> {
        let x = t.serialize(self.h)?; self.n.c.push(Node { k: "field", n: 0, i: 0, b: k.as_bytes().to_vec(), c: vec![x] }); Ok(()) }
    fn skip(&mut self, k: &'static str) { self.n.c.push(Node::text("skip", k.as_bytes())) } }

impl Serializer for NS {
    type Ok = Node; type Error = NErr;
    type SerializeSeq = Acc; type SerializeTuple = Acc; type SerializeTupleStruct = Acc; type SerializeTupleVariant = Acc;
    type SerializeMap = Acc; type SerializeStruct = Acc; type SerializeStructVariant = Acc;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_bool(self, v: bool) -> Result<Node, NErr> { Ok(Node::boolean(v)) }
    fn serialize_i8(self, v: i8) -> Result<Node, NErr> { Ok(Node::int("i8", v as i128)) }
    fn serialize_i16(self, v: i16) -> Result<Node, NErr> { Ok(Node::int("i16", v as i128)) }
    fn serialize_i32(self, v: i32) -> Result<Node, NErr> { Ok(Node::int("i32", v as i128)) }
    fn serialize_i64(self, v: i64) -> Result<Node, NErr> { Ok(Node::int("i64", v as i128)) }
    fn serialize_u8(self, v: u8) -> Result<Node, NErr> { Ok(Node::int("u8", v as i128)) }
    fn serialize_u16(self, v: u16) -> Result<Node, NErr> { Ok(Node::int("u16", v as i128)) }
    fn serialize_u32(self, v: u32) -> Result<Node, NErr> { Ok(Node::int("u32", v as i128)) }
    fn serialize_u64(self, v: u64) -> Result<Node, NErr> { Ok(Node::int("u64", v as i128)) }
    fn serialize_f32(self, v: f32) -> Result<Node, NErr> { Ok(Node::text("f32", &v.to_bits().to_be_bytes())) }
    fn serialize_f64(self, v: f64) -> Result<Node, NErr> { Ok(Node::text("f64", &v.to_bits().to_be_bytes())) }
    fn serialize_char(self, v: char) -> Result<Node, NErr> { Ok(Node::text("char", v.to_string().as_bytes())) }
    fn serialize_str(self, v: &str) -> Result<Node, NErr> { Ok(Node::text("str", v.as_bytes())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Node, NErr> { Ok(Node::text("bytes", v)) }
    fn serialize_none(self) -> Result<Node, NErr> { Ok(Node::leaf("none")) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Node, NErr> { Ok(Node::wrap("some", vec![v.serialize(self)?])) }
    fn serialize_unit(self) -> Result<Node, NErr> { Ok(Node::leaf("unit")) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Node, NErr> { Ok(Node::leaf("ustruct")) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Node, NErr> {
        Ok(Node { k: "uvar", n: 0, i, b: v.as_bytes().to_vec(), c: vec![] }) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Node, NErr> {
        Ok(Node::wrap("nstruct", vec![v.serialize(self)?])) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Node, NErr> {
        Ok(Node { k: "nvar", n: 0, i, b: n.as_bytes().to_vec(), c: vec![v.serialize(self)?] }) }
    fn serialize_seq(self, l: Option<usize>) -> Result<Acc, NErr> { acc(self, "seq", l, 0, "") }
    fn serialize_tuple(self, l: usize) -> Result<Acc, NErr> { acc(self, "tuple", Some(l), 0, "") }
    fn serialize_tuple_struct(self, _: &'static str, l: usize) -> Result<Acc, NErr> { acc(self, "tstruct", Some(l), 0, "") }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, l: usize) -> Result<Acc, NErr> { acc(self, "tvar", Some(l), i, n) }
    fn serialize_map(self, l: Option<usize>) -> Result<Acc, NErr> { acc(self, "map", l, 0, "") }
    fn serialize_struct(self, _: &'static str, l: usize) -> Result<Acc, NErr> { acc(self, "struct", Some(l), 0, "") }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, l: usize) -> Result<Acc, NErr> { acc(self, "svar", Some(l), i, n) }
}
fn acc(h: NS, k: &'static str, l: Option<usize>, i: u32, name: &str) -> Result<Acc, NErr> {
    Ok(Acc { h, n: Node { k, n: l.map(|x| x as i64).unwrap_or(-1), i, b: name.as_bytes().to_vec(), c: vec![] } })
}
impl SerializeSeq for Acc { type Ok = Node; type Error = NErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NErr> { self.push(v) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
impl SerializeTuple for Acc { type Ok = Node; type Error = NErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NErr> { self.push(v) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
impl SerializeTupleStruct for Acc { type Ok = Node; type Error = NErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NErr> { self.push(v) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
impl SerializeTupleVariant for Acc { type Ok = Node; type Error = NErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NErr> { self.push(v) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
impl SerializeMap for Acc { type Ok = Node; type Error = NErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NErr> { self.push(v) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NErr> { self.push(v) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
impl SerializeStruct for Acc { type Ok = Node; type Error = NErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), NErr> { self.field(k, v) }
    fn skip_field(&mut self, k: &'static str) -> Result<(), NErr> { self.skip(k); Ok(()) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
impl SerializeStructVariant for Acc { type Ok = Node; type Error = NErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), NErr> { self.field(k, v) }
    fn skip_field(&mut self, k: &'static str) -> Result<(), NErr> { self.skip(k); Ok(()) } fn end(self) -> Result<Node, NErr> { Ok(self.n) } }
