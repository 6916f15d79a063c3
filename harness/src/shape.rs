//! Decoding into the type described by a shape tree, with a record of every borrowed slice.
use crate::node::{intern, intern_list, Node};
use serde::de::*;
use std::cell::RefCell;
use std::fmt;

pub struct Cx<'de> { pub spans: RefCell<Vec<(&'de [u8], Vec<u8>)>> }
impl<'de> Cx<'de> {
    pub fn new() -> Self { Cx { spans: RefCell::new(vec![]) } }
    fn note(&self, b: &'de [u8]) { self.spans.borrow_mut().push((b, b.to_vec())) }
}
#[derive(Clone, Copy)]
pub struct Seed<'a, 'de> { pub sh: &'a Node, pub cx: &'a Cx<'de> }

struct V<'a, 'de> { sh: &'a Node, cx: &'a Cx<'de>, what: What }
#[derive(Clone, Copy, PartialEq)]
enum What { Opt, Unit, Newtype, Seq, Tuple, Map, Struct, Enum, Any, Bytes, Text, Part }

fn fields(sh: &Node) -> &'static [&'static str] { intern_list(sh.c.iter().map(|f| intern(f.text_str())).collect()) }

impl<'de> DeserializeSeed<'de> for Seed<'_, 'de> {
    type Value = Node;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        let sh = self.sh;
        let v = |what| V { sh, cx: self.cx, what };
        macro_rules! int { ($t:ty) => { <$t>::deserialize(d).map(|x| Node::int(stringify!($t), x as i128)) } }
        match sh.k {
            "bool" => bool::deserialize(d).map(Node::boolean),
            "i8" => int!(i8), "i16" => int!(i16), "i32" => int!(i32), "i64" => int!(i64),
            "u8" => int!(u8), "u16" => int!(u16), "u32" => int!(u32), "u64" => int!(u64),
            "f32" => f32::deserialize(d).map(Node::f32),
            "f64" => f64::deserialize(d).map(Node::f64),
            "char" => char::deserialize(d).map(|c| Node::text("char", c.encode_utf8(&mut [0; 4]).as_bytes())),
            "str" => <&'de str>::deserialize(d).map(|s| { self.cx.note(s.as_bytes()); Node::text("str", s.as_bytes()) }),
            "string" => d.deserialize_string(v(What::Text)),
            "bytes" => <&'de [u8]>::deserialize(d).map(|s| { self.cx.note(s); Node::text("bytes", s) }),
            "bytebuf" => d.deserialize_byte_buf(v(What::Bytes)),
            "unit" => <()>::deserialize(d).map(|_| Node::leaf("unit")),
            "ustruct" => d.deserialize_unit_struct("U", v(What::Unit)),
            "opt" => d.deserialize_option(v(What::Opt)),
            "nstruct" => d.deserialize_newtype_struct("N", v(What::Newtype)),
            "seq" => d.deserialize_seq(v(What::Seq)),
            "tuple" => d.deserialize_tuple(sh.c.len(), v(What::Tuple)),
            "tstruct" => d.deserialize_tuple_struct("T", sh.c.len(), v(What::Tuple)),
            "map" => d.deserialize_map(v(What::Map)),
            "struct" => d.deserialize_struct("S", fields(sh), v(What::Struct)),
            "enum" => d.deserialize_enum("E", fields(sh), v(What::Enum)),
            "any" => d.deserialize_any(v(What::Any)),
            "hr" => { let h = d.is_human_readable(); bool::deserialize(d).map(|_| Node::boolean(h)) }
            "ign" => IgnoredAny::deserialize(d).map(|_| Node::leaf("unit")),
            "custom" => { self::Seed { sh: &sh.c[0], cx: self.cx }.deserialize(d)?; Err(D::Error::custom(sh.text_str())) }
            "part" => if sh.c[0].k == "seq" { d.deserialize_seq(v(What::Part)) } else { d.deserialize_map(v(What::Part)) },
            k => panic!("bad shape {k}"),
        }
    }
}

/// the identifier visitor a derived struct or enum has
struct Ident<'a> { names: &'a [Node], deny: bool, variant: bool }
impl<'de> DeserializeSeed<'de> for Ident<'_> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}
const NONE: usize = usize::MAX;
impl<'de> Visitor<'de> for Ident<'_> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: Error>(self, n: u64) -> Result<usize, E> {
        if (n as u128) < self.names.len() as u128 { Ok(n as usize) }
        else if self.deny || self.variant { Err(E::invalid_value(Unexpected::Unsigned(n), &self)) } else { Ok(NONE) }
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<usize, E> { self.visit_bytes(s.as_bytes()) }
    fn visit_bytes<E: Error>(self, s: &[u8]) -> Result<usize, E> {
        match self.names.iter().position(|n| n.b == s) {
            Some(i) => Ok(i),
            None if self.variant => Err(E::unknown_variant("?", &[])),
            None if self.deny => Err(E::unknown_field("?", &[])),
            None => Ok(NONE),
        }
    }
}

fn default_of(sh: &Node) -> Node {
    match sh.k {
        "opt" => Node::leaf("none"),
        "bool" => Node::boolean(false),
        "i8" | "i16" | "i32" | "i64" | "u8" | "u16" | "u32" | "u64" => Node::int(sh.k, 0),
        "f32" => Node::f32(0.0), "f64" => Node::f64(0.0),
        "str" | "string" => Node::leaf("str"),
        "bytes" | "bytebuf" => Node::leaf("bytes"),
        "seq" | "map" | "unit" => Node::leaf(sh.k),
        _ => Node::leaf("null"),
    }
}
fn finish_struct<E: Error>(sh: &Node, acc: Vec<Option<Node>>) -> Result<Node, E> {
    let mut c = vec![];
    for (f, a) in sh.c.iter().zip(acc) {
        let v = match a {
            Some(v) => v,
            None if f.n == 1 || f.c[0].k == "opt" => default_of(&f.c[0]),
            None => return Err(E::missing_field(intern(f.text_str()))),
        };
        c.push(Node { k: "field", n: 0, i: 0, b: f.b.clone(), c: vec![v] });
    }
    Ok(Node::wrap("struct", c))
}

/// what an accessor says is left
fn hint(h: Option<usize>) -> Node { h.map_or(Node::leaf("none"), |n| Node::wrap("some", vec![Node::int("u64", n as i128)])) }

impl<'a, 'de> V<'a, 'de> {
    fn seed(&self, sh: &'a Node) -> Seed<'a, 'de> { Seed { sh, cx: self.cx } }
    fn any(&self) -> bool { self.what == What::Any }
    fn bad<T, E: Error>(&self, u: Unexpected) -> Result<T, E> { Err(E::invalid_type(u, self)) }
}
impl<'a, 'de> Visitor<'de> for V<'a, 'de> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.sh.k) }
    fn visit_bool<E: Error>(self, x: bool) -> Result<Node, E> { if self.any() { Ok(Node::boolean(x)) } else { self.bad(Unexpected::Bool(x)) } }
    fn visit_i64<E: Error>(self, x: i64) -> Result<Node, E> { if self.any() { Ok(Node::any_int(x as i128)) } else { self.bad(Unexpected::Signed(x)) } }
    fn visit_u64<E: Error>(self, x: u64) -> Result<Node, E> { if self.any() { Ok(Node::any_int(x as i128)) } else { self.bad(Unexpected::Unsigned(x)) } }
    fn visit_f32<E: Error>(self, x: f32) -> Result<Node, E> { if self.any() { Ok(Node::f32(x)) } else { self.bad(Unexpected::Float(x as f64)) } }
    fn visit_f64<E: Error>(self, x: f64) -> Result<Node, E> { if self.any() { Ok(Node::f64(x)) } else { self.bad(Unexpected::Float(x)) } }
    fn visit_str<E: Error>(self, s: &str) -> Result<Node, E> {
        match self.what { What::Any | What::Text => Ok(Node::text("str", s.as_bytes())),
                          What::Bytes => Ok(Node::text("bytes", s.as_bytes())), _ => self.bad(Unexpected::Str(s)) }
    }
    fn visit_borrowed_str<E: Error>(self, s: &'de str) -> Result<Node, E> { self.cx.note(s.as_bytes()); self.visit_str(s) }
    fn visit_bytes<E: Error>(self, s: &[u8]) -> Result<Node, E> {
        match self.what { What::Any | What::Bytes => Ok(Node::text("bytes", s)), _ => self.bad(Unexpected::Bytes(s)) }
    }
    fn visit_borrowed_bytes<E: Error>(self, s: &'de [u8]) -> Result<Node, E> { self.cx.note(s); self.visit_bytes(s) }
    fn visit_none<E: Error>(self) -> Result<Node, E> {
        match self.what { What::Any => Ok(Node::leaf("unit")), What::Opt => Ok(Node::leaf("none")), _ => self.bad(Unexpected::Option) }
    }
    fn visit_unit<E: Error>(self) -> Result<Node, E> {
        match self.what { What::Any => Ok(Node::leaf("unit")), What::Opt => Ok(Node::leaf("none")), What::Unit => Ok(Node::leaf("ustruct")),
                          _ => self.bad(Unexpected::Unit) }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        match self.what { What::Any => self.seed(self.sh).deserialize(d),
                          What::Opt => Ok(Node::wrap("some", vec![self.seed(&self.sh.c[0]).deserialize(d)?])),
                          _ => self.bad(Unexpected::Option) }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        match self.what { What::Any => self.seed(self.sh).deserialize(d),
                          What::Newtype => Ok(Node::wrap("nstruct", vec![self.seed(&self.sh.c[0]).deserialize(d)?])),
                          _ => self.bad(Unexpected::NewtypeStruct) }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        match self.what {
            What::Any | What::Seq => {
                let el = if self.any() { self.sh } else { &self.sh.c[0] };
                let mut c = vec![];
                while let Some(x) = a.next_element_seed(self.seed(el))? { c.push(x) }
                Ok(Node::wrap("seq", c))
            }
            What::Tuple => {
                let mut c = vec![];
                for el in &self.sh.c {
                    match a.next_element_seed(self.seed(el))? { Some(x) => c.push(x), None => return Err(A::Error::invalid_length(c.len(), &self)) }
                }
                Ok(Node::wrap(if self.sh.k == "tuple" || self.sh.k == "tvar" { self.sh.k } else { "tstruct" }, c))
            }
            What::Part => {
                let mut c = vec![hint(a.size_hint())];
                let mut left = self.sh.n;
                while left != 0 {
                    match a.next_element_seed(self.seed(&self.sh.c[0].c[0]))? { Some(x) => { c.push(x); c.push(hint(a.size_hint())) } None => break }
                    left -= 1
                }
                if left != 0 && self.sh.i == 1 {
                    c.push(a.next_element_seed(self.seed(&self.sh.c[0].c[0]))?.unwrap_or(Node::leaf("unit")));
                }
                Ok(Node::wrap("seq", c))
            }
            What::Newtype => match a.next_element_seed(self.seed(&self.sh.c[0]))? {
                Some(x) => Ok(Node::wrap("nstruct", vec![x])), None => Err(A::Error::invalid_length(0, &self)) },
            What::Struct => {
                let mut acc = vec![];
                for f in &self.sh.c {
                    match a.next_element_seed(self.seed(&f.c[0]))? {
                        Some(x) => acc.push(Some(x)),
                        None if f.n == 1 => acc.push(Some(default_of(&f.c[0]))),
                        None => return Err(A::Error::invalid_length(acc.len(), &self)),
                    }
                }
                finish_struct(self.sh, acc)
            }
            _ => self.bad(Unexpected::Seq),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        match self.what {
            What::Any | What::Map => {
                let (ks, vs) = if self.any() { (self.sh, self.sh) } else { (&self.sh.c[0], &self.sh.c[1]) };
                let mut c = vec![];
                loop {
                    if c.len() % 6 == 4 {           // both ways serde offers for an entry
                        match a.next_entry_seed(self.seed(ks), self.seed(vs))? { Some((k, v)) => { c.push(k); c.push(v) } None => break }
                    } else {
                        match a.next_key_seed(self.seed(ks))? { Some(k) => { c.push(k); c.push(a.next_value_seed(self.seed(vs))?) } None => break }
                    }
                }
                Ok(Node::wrap("map", c))
            }
            What::Part => {
                let (ks, vs) = (&self.sh.c[0].c[0], &self.sh.c[0].c[1]);
                let mut c = vec![hint(a.size_hint())];
                let mut left = self.sh.n;
                while left != 0 {
                    match a.next_key_seed(self.seed(ks))? {
                        Some(k) => { c.push(k); c.push(a.next_value_seed(self.seed(vs))?); c.push(hint(a.size_hint())) } None => break }
                    left -= 1
                }
                if left != 0 && self.sh.i == 1 { c.push(a.next_key_seed(self.seed(ks))?.unwrap_or(Node::leaf("unit"))) }
                Ok(Node::wrap("seq", c))
            }
            What::Struct => {
                let mut acc: Vec<Option<Node>> = vec![None; self.sh.c.len()];
                while let Some(j) = a.next_key_seed(Ident { names: &self.sh.c, deny: self.sh.n == 1, variant: false })? {
                    if j == NONE { a.next_value::<IgnoredAny>()?; continue }
                    if acc[j].is_some() { return Err(A::Error::duplicate_field("?")) }
                    acc[j] = Some(a.next_value_seed(self.seed(&self.sh.c[j].c[0]))?);
                }
                finish_struct(self.sh, acc)
            }
            _ => self.bad(Unexpected::Map),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Node, A::Error> {
        if self.what != What::Enum { return self.bad(Unexpected::Enum) }
        let (j, va) = a.variant_seed(Ident { names: &self.sh.c, deny: true, variant: true })?;
        let var = &self.sh.c[j];
        let mut r = match var.k {
            "uvar" => { va.unit_variant()?; Node::leaf("uvar") }
            "nvar" => Node::wrap("nvar", vec![va.newtype_variant_seed(self.seed(&var.c[0]))?]),
            "tvar" => va.tuple_variant(var.c.len(), V { sh: var, cx: self.cx, what: What::Tuple })?,
            _ => va.struct_variant(fields(var), V { sh: var, cx: self.cx, what: What::Struct })?,
        };
        r.k = var.k; r.i = j as u32; r.b = var.b.clone();
        Ok(r)
    }
}

thread_local! { pub static SHAPE: RefCell<Node> = RefCell::new(Node::leaf("any")); }
/// a Deserialize type that takes its shape from the thread
pub struct Dyn(pub Node);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let sh = SHAPE.with(|s| s.borrow().clone());
        let cx = Cx::new();
        let r = Seed { sh: &sh, cx: &cx }.deserialize(d);
        r.map(Dyn)
    }
}
