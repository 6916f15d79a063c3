//! Executes one stimulus against the real crates.
use crate::js::{self, J};
use crate::node::Node;
use crate::shape::{Cx, Dyn, Seed, SHAPE};
use crate::sinks::*;
use serde::de::DeserializeSeed;
use serde::Serialize;
use ser_write::{SerError, SerWrite};
use ser_write_json as json;
use ser_write_msgpack as mp;
use std::fmt::Debug;

/// the name of an error variant
pub fn name<E: Debug>(e: &E) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap().to_string()
}
pub fn ename<T, E: Debug>(r: &Result<T, E>) -> String { match r { Ok(_) => String::new(), Err(e) => name(e) } }
/// name, and for a writer error its payload
fn wname<T, E: Debug>(r: &Result<T, E>) -> (String, String) {
    let n = ename(r);
    let p = match r { Err(e) if n == "Writer" => {
        let s = format!("{:?}", e); s.chars().filter(|c| c.is_ascii_alphanumeric()).collect() } _ => String::new() };
    (n, p)
}

type JErr = json::ser::Error<SerError>;
pub fn jser_to<W: SerWrite, T: Serialize + ?Sized>(fl: i64, w: W, v: &T) -> json::ser::Result<(), W::Error>
    where W::Error: std::fmt::Display + Debug {
    match fl { 0 => json::to_writer(w, v), 1 => json::to_writer_hex_bytes(w, v),
               2 => json::to_writer_base64_bytes(w, v), 4 => json::ser::to_writer_with_encoder::<crate::codec::Letters, _, _>(w, v),
               5 => json::ser::to_writer_with_encoder::<crate::codec::Object, _, _>(w, v), _ => json::ser::to_writer_pass_bytes(w, v) }
}
pub fn mser_to<W: SerWrite, T: Serialize + ?Sized>(fl: i64, w: W, v: &T) -> mp::ser::Result<(), W::Error>
    where W::Error: std::fmt::Display + Debug {
    match fl { 0 => mp::to_writer_compact(w, v), 1 => mp::to_writer(w, v), _ => mp::to_writer_named(w, v) }
}
#[cfg(any(feature = "std", feature = "alloc"))]
fn jser_string<T: Serialize + ?Sized>(fl: i64, v: &T) -> Result<Vec<u8>, JErr> {
    (match fl { 0 => json::to_string(v), 1 => json::to_string_hex_bytes(v), 2 => json::to_string_base64_bytes(v),
                4 | 5 => { let mut b = vec![]; return jser_to(fl, &mut b, v).map(|_| b) }
                _ => json::ser::to_string_pass_bytes(v) }).map(|s| s.into_bytes())
}
#[cfg(any(feature = "std", feature = "alloc"))]
fn mser_vec<T: Serialize + ?Sized>(fl: i64, v: &T) -> Result<Vec<u8>, mp::ser::Error<SerError>> {
    match fl { 0 => mp::to_vec_compact(v), 1 => mp::to_vec(v), _ => mp::to_vec_named(v) }
}

/// serialize; (error, bytes, does the string/vec function agree: 0 no, 1 yes, 2 the text is not UTF-8)
pub fn jser<T: Serialize + ?Sized>(fl: i64, v: &T) -> (String, Vec<u8>, i64) {
    let mut b = Buf(vec![]);
    let r = jser_to(fl, &mut b, v);
    let e = ename(&r);
    #[cfg(any(feature = "std", feature = "alloc"))]
    let s = { let r2 = jser_string(fl, v);
        match (&r, r2) { (Ok(()), Ok(o)) => (o == b.0) as i64, (Ok(()), Err(x)) => if name(&x) == "Utf8Encode" { 2 } else { 0 },
                         (Err(x), Err(y)) => (name(x) == name(&y)) as i64, _ => 0 } };
    #[cfg(not(any(feature = "std", feature = "alloc")))]
    let s = if e.is_empty() && core::str::from_utf8(&b.0).is_err() { 2 } else { 1 };
    (e, b.0, s)
}
pub fn mser<T: Serialize + ?Sized>(fl: i64, v: &T) -> (String, Vec<u8>, i64) {
    let mut b = Buf(vec![]);
    let r = mser_to(fl, &mut b, v);
    let e = ename(&r);
    #[cfg(any(feature = "std", feature = "alloc"))]
    let s = { let r2 = mser_vec(fl, v);
        match (&r, r2) { (Ok(()), Ok(o)) => (o == b.0) as i64, (Err(x), Err(y)) => (name(x) == name(&y)) as i64, _ => 0 } };
    #[cfg(not(any(feature = "std", feature = "alloc")))]
    let s = 1;
    (e, b.0, s)
}

fn null() -> Node { Node::leaf("null") }
fn spans(cx: &Cx, base: *const u8) -> J {
    J::A(cx.spans.borrow().iter().map(|(s, was)| {
        let off = (s.as_ptr() as usize).wrapping_sub(base as usize) as i64;
        let off = if (-100_000_000..100_000_000).contains(&off) { off } else { -9999 };
        let now = std::hint::black_box(*s);
        J::A(vec![J::I(off), J::I(s.len() as i64), J::B(now == &was[..])])
    }).collect())
}

const CAN: usize = 24;
pub fn dyn_jde(fl: i64, sh: &Node, buf: &mut [u8]) -> Result<Node, json::de::Error> {
    SHAPE.with(|s| *s.borrow_mut() = sh.clone());
    (match fl { 0 => json::from_mut_slice::<Dyn>(buf), 1 => json::from_mut_slice_hex_bytes(buf), 4 => json::de::from_mut_slice_with_decoder::<crate::codec::Letters, Dyn>(buf), 6 => json::de::from_mut_slice_with_decoder::<crate::codec::Framed, Dyn>(buf), _ => json::from_mut_slice_base64_bytes(buf) }).map(|d| d.0)
}
pub fn dyn_mde(sh: &Node, buf: &[u8]) -> Result<(Node, usize), mp::de::Error> {
    SHAPE.with(|s| *s.borrow_mut() = sh.clone());
    mp::from_slice::<Dyn>(buf).map(|(d, n)| (d.0, n))
}
fn same(a: &Node, b: &Node) -> bool { a == b }

macro_rules! with_de { ($fl:expr, $buf:expr, $de:ident, $body:block) => { match $fl {
    0 => { let mut $de = json::de::DeserializerNopeByteStr::from_mut_slice($buf); $body }
    1 => { let mut $de = json::de::DeserializerHexByteStr::from_mut_slice($buf); $body }
    4 => { let mut $de = json::de::Deserializer::<crate::codec::Letters>::from_mut_slice($buf); $body }
    6 => { let mut $de = json::de::Deserializer::<crate::codec::Framed>::from_mut_slice($buf); $body }
    _ => { let mut $de = json::de::DeserializerBase64ByteStr::from_mut_slice($buf); $body } } } }

pub fn op_jde(fl: i64, sh: &Node, input: &[u8]) -> J {
    let mut buf = vec![0xA5u8; input.len() + 2 * CAN];
    buf[CAN..CAN + input.len()].copy_from_slice(input);
    let base = buf[CAN..].as_ptr();
    let cx = Cx::new();
    let (r, rem, tail) = {
        // the decoder gets exactly the input; the canaries around it belong to the same allocation
        let ptr = buf[CAN..].as_mut_ptr();
        let slice: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(ptr, input.len()) };
        with_de!(fl, slice, de, {
            let r = Seed { sh, cx: &cx }.deserialize(&mut de);
            let rem = de.remaining_len();
            let tail = r.is_err() || de.input_mut().map(|x| x.to_vec()).unwrap_or_default() == input[input.len() - rem..];
            match r { Ok(v) => (de.end().map(|_| v), rem as i64, tail), Err(e) => (Err(e), rem as i64, tail) }
        })
    };
    let sp = spans(&cx, base);
    let canary = buf[..CAN].iter().chain(&buf[CAN + input.len()..]).all(|&b| b == 0xA5);
    let mut copy = input.to_vec();
    let r2 = dyn_jde(fl, sh, &mut copy);
    let agree = match (&r, &r2) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => name(a) == name(b), _ => false };
    let rem = if r.is_ok() { rem } else { -1 };
    let e = ename(&r);
    js::obj(vec![("e", js::s(&e)), ("v", r.unwrap_or(null()).to_j()), ("n", J::I(rem)), ("ag", J::B(agree)),
                 ("cn", J::B(canary && tail)), ("sp", sp)])
}
pub fn op_mde(sh: &Node, input: &[u8]) -> J {
    let cx = Cx::new();
    let mut de = mp::de::Deserializer::from_slice(input);
    let r = Seed { sh, cx: &cx }.deserialize(&mut de);
    let n = if r.is_ok() { (input.len() - de.remaining_len()) as i64 } else { -1 };
    let sp = spans(&cx, input.as_ptr());
    let endn = de.end();
    let r2 = dyn_mde(sh, input);
    let r3 = mp::de::from_slice_split_tail::<Dyn>(input);
    let agree = match (&r, &r2, &r3) {
        (Ok(a), Ok((b, m)), Ok((c, t))) => same(a, b) && same(a, &c.0) && *m as i64 == n && t.len() == input.len() - *m
            && t.as_ptr() as usize == input.as_ptr() as usize + *m && endn == Ok(t.len()),
        (Err(a), Err(b), Err(c)) => a == b && a == c, _ => false };
    let e = ename(&r);
    js::obj(vec![("e", js::s(&e)), ("v", r.unwrap_or(null()).to_j()), ("n", J::I(n)), ("ag", J::B(agree)), ("cn", J::B(true)), ("sp", sp)])
}

/// a value that stands far into the input: pre unit^n post in tail
fn op_far(st: &J) -> J {
    let part = |f: &str| st.get(f).bytes();
    let all = [part("pre"), part("unit").repeat(st.get("n").int() as usize), part("post"), part("in"), part("tail")].concat();
    let sh = Node::from_j(st.get("osh"));
    let r = if st.get("fmt").str() == "j" { op_jde(st.get("fl").int(), &sh, &all) } else { op_mde(&sh, &all) };
    if st.get("wrap").int() == 0 || !r.get("e").str().is_empty() { return r }
    let v = Node::from_j(r.get("v")).c.swap_remove(1);
    js::obj(vec![("e", js::s("")), ("v", v.to_j()), ("n", J::I(r.get("n").int())), ("ag", J::I(r.get("ag").int())), ("cn", J::I(r.get("cn").int())), ("sp", r.get("sp").clone())])
}

fn op_serf(st: &J) -> J {
    let vs: Vec<Node> = st.get("vs").arr().iter().map(Node::from_j).collect();
    let fl = st.get("fl").int();
    let j = st.get("fmt").str() == "j";
    let kind = st.get("kind").str();
    let cap = st.get("cap").int() as usize;
    let mut es: Vec<J> = vec![];
    let mut extra = true;
    fn run<W: SerWrite>(j: bool, fl: i64, w: W, vs: &[Node], es: &mut Vec<J>) -> W where W::Error: std::fmt::Display + Debug {
        macro_rules! go { ($ser:expr) => {{ let mut ser = $ser;
            for v in vs { let r = v.serialize(&mut ser); let (n, p) = wname(&r); es.push(J::A(vec![js::s(&n), js::s(&p)])); let _ = ser.writer_ref(); let _ = ser.writer(); if r.is_err() { break } }
            ser.into_inner() }} }
        if j { match fl { 0 => go!(json::ser::SerializerByteArray::new(w)), 1 => go!(json::ser::SerializerByteHexStr::new(w)),
                          2 => go!(json::ser::SerializerByteBase64::new(w)), 4 => go!(json::ser::Serializer::<W, crate::codec::Letters>::new(w)), 5 => go!(json::ser::Serializer::<W, crate::codec::Object>::new(w)), _ => go!(json::ser::SerializerBytePass::new(w)) } }
        else { match fl { 0 => go!(mp::ser::CompactSerializer::new(w)), 1 => go!(mp::ser::StructMapIdxSerializer::new(w)), _ => go!(mp::ser::StructMapStrSerializer::new(w)) } }
    }
    let mut hit = -1;                    // did the sink refuse anything (-1: not known)
    let got = match kind {
        "calls" | "sticky" => { let w = run(j, fl, Failing { got: vec![], calls: 0, at: cap, sticky: kind == "sticky", hit: false }, &vs, &mut es); hit = w.hit as i64; w.got }
        "bounded" => { let w = run(j, fl, Bounded { got: vec![], cap, hit: false }, &vs, &mut es); hit = w.hit as i64; w.got }
        _ => {
            if !have(kind) { return J::Null }
            let mut got = vec![];
            with_sink(kind, cap, &mut |t: &mut dyn Target| {
                es.clear();
                run(j, fl, Fwd(t.sink()), &vs, &mut es);
                got = t.content();
            });
            // the one-call functions on the same sink
            if vs.len() == 1 {
                with_sink(kind, cap, &mut |t: &mut dyn Target| {
                    let x = if j { wname(&jser_to(fl, Fwd(t.sink()), &vs[0])) } else { wname(&mser_to(fl, Fwd(t.sink()), &vs[0])) };
                    extra = t.content() == got && es == vec![J::A(vec![js::s(&x.0), js::s(&x.1)])];
                });
            }
            got
        }
    };
    js::obj(vec![("es", J::A(es)), ("o", js::bytes(&got)), ("ag", J::B(extra)), ("hit", J::I(hit))])
}

fn res(e: String, v: Node, rem: usize) -> J { js::obj(vec![("e", js::s(&e)), ("v", v.to_j()), ("rem", J::I(rem as i64))]) }
fn bytes_node(b: &[u8]) -> Node { Node::text("bytes", b) }

/// almost as far as the machine counts, or some power of two
fn far(op: &J) -> usize {
    let e = op.get("b").int() as u32;
    (if e == 0 { usize::MAX } else { 1 << e.min(usize::BITS - 1) }) - op.get("a").int() as usize
}
fn op_jcur(st: &J) -> J {
    let mut input = st.get("in").bytes();
    let len0 = input.len();
    let base = input.as_ptr();
    let mut out = vec![];
    let cx = Cx::new();
    let seeds: Vec<Node> = st.get("ops").arr().iter().map(|o| Node::from_j_opt(o.get("sh"))).collect();
    let slice: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(input.as_mut_ptr(), len0) };
    let ops = st.get("ops").arr();
    macro_rules! go { ($t:ty) => {{
        let mut de = Some(<$t>::from_mut_slice(slice));
        for (i, op) in ops.iter().enumerate() {
            let o = op.get("o").str();
            if o == "end" { let r = de.take().unwrap().end(); out.push(res(ename(&r), null(), 0)); break }
            let d = de.as_mut().unwrap();
            macro_rules! num { ($f:ident, $ty:ty) => {{ let r = d.$f::<$ty>(); (ename(&r), r.map(|x| Node::int(stringify!($ty), x as i128)).unwrap_or(null())) }} }
            macro_rules! by { ($r:expr) => {{ let r = $r; (ename(&r), r.map(|x| { let y: &[u8] = x.as_ref(); bytes_node(y) }).unwrap_or(null())) }} }
            let (e, v) = match o {
                "peek" => { let r = d.peek(); (ename(&r), r.map(|b| bytes_node(&[b])).unwrap_or(null())) }
                "ws" => { let r = d.eat_whitespace(); (ename(&r), r.map(|b| bytes_node(&[b])).unwrap_or(null())) }
                "eat" => { d.eat_some(op.get("a").int() as usize); (String::new(), null()) }
                "far" => { d.eat_some(far(op)); (String::new(), null()) }
                "input" => by!(d.input_mut()),
                "split" => { let s = d.split_input(op.get("a").int() as usize, op.get("b").int() as usize); (String::new(), bytes_node(s)) }
                "num" => match op.get("k").str() { "u8" => num!(parse_unsigned, u8), "u16" => num!(parse_unsigned, u16), "u32" => num!(parse_unsigned, u32), "u64" => num!(parse_unsigned, u64),
                    "i8" => num!(parse_signed, i8), "i16" => num!(parse_signed, i16), "i32" => num!(parse_signed, i32), _ => num!(parse_signed, i64) },
                "tok" => { let r = d.parse_token_content(&op.get("t").bytes()); (ename(&r), null()) }
                "eatstr" => { let r = d.eat_str_content(); (ename(&r), null()) }
                "str" => { let r = d.parse_str_content(); if let Ok(s) = &r { cx.spans.borrow_mut().push((s.as_bytes(), s.as_bytes().to_vec())) } by!(r) }
                "strb" => { let r = d.parse_str_bytes_content(); if let Ok(s) = &r { cx.spans.borrow_mut().push((s, s.to_vec())) } by!(r) }
                "hex" => { let r = d.parse_hex_bytes_content(); if let Ok(s) = &r { cx.spans.borrow_mut().push((s, s.to_vec())) } by!(r) }
                "b64" => { let r = d.parse_base64_bytes_content(); if let Ok(s) = &r { cx.spans.borrow_mut().push((s, s.to_vec())) } by!(r) }
                "val" => { let r = Seed { sh: &seeds[i], cx: &cx }.deserialize(&mut *d); (ename(&r), r.unwrap_or(null())) }
                x => panic!("cursor op {x}"),
            };
            let stop = !e.is_empty() && !matches!(o, "peek" | "ws" | "input" | "tok");
            out.push(res(e, v, d.remaining_len()));
            if stop { break }
        }
    }} }
    match st.get("fl").int() { 0 => go!(json::de::DeserializerNopeByteStr), 1 => go!(json::de::DeserializerHexByteStr), 4 => go!(json::de::Deserializer::<crate::codec::Letters>), 6 => go!(json::de::Deserializer::<crate::codec::Framed>), _ => go!(json::de::DeserializerBase64ByteStr) }
    js::obj(vec![("r", J::A(out)), ("sp", spans(&cx, base))])
}
fn op_mcur(st: &J) -> J {
    let input = st.get("in").bytes();
    let mut out = vec![];
    let cx = Cx::new();
    let ops = st.get("ops").arr();
    let seeds: Vec<Node> = ops.iter().map(|o| Node::from_j_opt(o.get("sh"))).collect();
    let mut de = Some(mp::de::Deserializer::from_slice(&input));
    for (i, op) in ops.iter().enumerate() {
        let o = op.get("o").str();
        if o == "end" { let r = de.take().unwrap().end(); let n = r.clone().unwrap_or(0); out.push(res(ename(&r), null(), n)); break }
        let d = de.as_mut().unwrap();
        let (e, v) = match o {
            "peek" => { let r = d.peek(); (ename(&r), r.map(|b| bytes_node(&[b])).unwrap_or(null())) }
            "fetch" => { let r = d.fetch(); (ename(&r), r.map(|b| bytes_node(&[b])).unwrap_or(null())) }
            "eat" => { d.eat_some(op.get("a").int() as usize); (String::new(), null()) }
            "far" => { d.eat_some(far(op)); (String::new(), null()) }
            "input" => { let r = d.input_ref(); (ename(&r), r.map(bytes_node).unwrap_or(null())) }
            "split" => { let r = d.split_input(op.get("a").int() as usize); (ename(&r), r.map(bytes_node).unwrap_or(null())) }
            "skip" => { let r = d.eat_message(); (ename(&r), null()) }
            "val" => { let r = Seed { sh: &seeds[i], cx: &cx }.deserialize(&mut *d); (ename(&r), r.unwrap_or(null())) }
            x => panic!("cursor op {x}"),
        };
        let stop = !e.is_empty() && !matches!(o, "peek" | "input" | "fetch" | "split");
        out.push(res(e, v, d.remaining_len()));
        if stop { break }
    }
    js::obj(vec![("r", J::A(out)), ("sp", spans(&cx, input.as_ptr()))])
}

/// big values: n items, header and body checked here, header compared with the specification
fn op_big(st: &J) -> J {
    let n = st.get("n").int() as usize;
    let kind = st.get("kind").str();
    let fl = st.get("fl").int();
    let j = st.get("fmt").str() == "j";
    let v = match kind {
        "str" => Node::text("str", &vec![b'a'; n]),
        "cstr" => Node { k: "cstr", n: 0, i: 0, b: vec![], c: vec![Node::text("str", &vec![b'a'; n / 2]), Node::text("str", &vec![b'a'; n - n / 2])] },
        "bytes" => Node::text("bytes", &vec![7; n]),
        "seq" => Node { k: "seq", n: n as i64, i: 0, b: vec![], c: vec![Node::int("u8", 7); n] },
        "tuple" => Node { k: "tuple", n: n as i64, i: 0, b: vec![], c: vec![Node::int("u8", 7); n] },
        "map" => Node { k: "map", n: n as i64, i: 0, b: vec![], c: vec![Node::int("u8", 7); 2 * n] },
        k => panic!("{k}"),
    };
    let (e, o, _) = if j { jser(fl, &v) } else { mser(fl, &v) };
    let body: Vec<u8> = if j { vec![] } else { match kind { "str" | "cstr" => vec![b'a'; n], "bytes" | "seq" | "tuple" => vec![7; n], _ => vec![7; 2 * n] } };
    let hl = if j { 1.min(o.len()) } else { o.len().saturating_sub(body.len()) };
    let ok = if j {
        let want: Vec<u8> = match (kind, fl) { ("str" | "cstr", _) => format!("\"{}\"", "a".repeat(n)).into_bytes(),
            ("bytes", 1) => format!("\"{}\"", "07".repeat(n)).into_bytes(),
            ("bytes", 0) | ("seq" | "tuple", _) => format!("[{}]", vec!["7"; n].join(",")).into_bytes(),
            ("map", _) => format!("{{{}}}", vec!["\"7\":7"; n].join(",")).into_bytes(), _ => o.clone() };
        want == o
    } else { o[hl..] == body[..] };
    // reading back, and every way of cutting the end off
    let sh = match kind { "str" | "cstr" => Node::leaf("str"), "bytes" => Node::leaf("bytes"), "map" => Node::wrap("map", vec![Node::leaf("u8"), Node::leaf("u8")]),
        "tuple" => Node::wrap("tuple", vec![Node::leaf("u8"); n]), _ => Node::wrap("seq", vec![Node::leaf("u8")]) };
    let expect = { let mut x = v.clone(); x.n = 0; if kind == "cstr" { x = Node::text("str", &vec![b'a'; n]) } x };
    let back = if j { dyn_jde(if fl == 3 { 0 } else { fl }, &sh, &mut o.clone()).ok() == Some(expect.clone()) }
               else { dyn_mde(&sh, &o) == Ok((expect.clone(), o.len())) };
    let cut = e.is_empty() && (1..6).all(|k| { let t = &o[..o.len() - k.min(o.len())];
        if j { dyn_jde(if fl == 3 { 0 } else { fl }, &sh, &mut t.to_vec()) == Err(json::de::Error::UnexpectedEof) } else { dyn_mde(&sh, t) == Err(mp::de::Error::UnexpectedEof) } });
    let ign = if j { dyn_jde(0, &Node::leaf("ign"), &mut o.clone()).is_ok() } else { dyn_mde(&Node::leaf("ign"), &o).map(|x| x.1) == Ok(o.len()) };
    js::obj(vec![("e", js::s(&e)), ("h", js::bytes(&o[..hl])), ("len", J::I(o.len() as i64)), ("body", J::B(ok)), ("back", J::B(back)), ("cut", J::B(cut)), ("ign", J::B(ign))])
}

fn op_deep(st: &J) -> J {
    let d = st.get("depth").int() as usize;
    let (op, mid, cl) = (st.get("open").bytes(), st.get("mid").bytes(), st.get("close").bytes());
    let mut input = Vec::with_capacity(d * (op.len() + cl.len()) + mid.len());
    for _ in 0..d { input.extend_from_slice(&op) }
    input.extend_from_slice(&mid);
    for _ in 0..d { input.extend_from_slice(&cl) }
    let sh = Node::from_j(st.get("sh"));
    // only the outcome: the decoded tree itself would be too deep to drop or print
    let j = st.get("fmt").str() == "j";
    let e = if j {
        if sh.k == "ign" { ename(&json::from_mut_slice::<serde::de::IgnoredAny>(&mut input)) } else { let r = dyn_jde(0, &sh, &mut input); let e = ename(&r); std::mem::forget(r); e }
    } else if st.get("eat").int() == 1 { let mut de = mp::de::Deserializer::from_slice(&input); let r = de.eat_message(); let e = ename(&r); if e.is_empty() && de.end() != Ok(0) { "Rest".to_string() } else { e } }
    else if sh.k == "ign" { let r = mp::from_slice::<serde::de::IgnoredAny>(&input); match r { Ok((_, n)) if n != input.len() => "Rest".to_string(), r => ename(&r) } }
    else { let r = dyn_mde(&sh, &input); let e = ename(&r); std::mem::forget(r); e };
    js::obj(vec![("e", js::s(&e))])
}

/// what an error says: its variant, the message it carries (has = 1: this configuration keeps messages), its text
fn op_err(st: &J) -> J {
    let fl = st.get("fl").int();
    let j = st.get("fmt").str() == "j";
    let has = cfg!(any(feature = "std", feature = "alloc"));
    macro_rules! msg { ($e:expr, $v:path) => {{
        #[cfg(any(feature = "std", feature = "alloc"))] let m: Option<String> = if let $v(s) = $e { Some(s.to_string()) } else { None };
        #[cfg(not(any(feature = "std", feature = "alloc")))] let m: Option<String> = if let $v = $e { Some(String::new()) } else { None };
        m }} }
    let show = |e: String, own: Option<String>, text: String| js::obj(vec![("e", js::s(&e)), ("has", J::B(has)), ("own", J::B(own.is_some())), ("msg", js::bytes(own.unwrap_or_default().as_bytes())), ("text", js::bytes(text.as_bytes()))]);
    let fine = || show(String::new(), None, String::new());
    if *st.get("in") != J::Null {
        let sh = Node::from_j(st.get("sh")); let mut b = st.get("in").bytes();
        if j { match dyn_jde(fl, &sh, &mut b) { Err(e) => show(name(&e), msg!(&e, json::de::Error::DeserializeError), e.to_string()), _ => fine() } }
        else { match dyn_mde(&sh, &b) { Err(e) => show(name(&e), msg!(&e, mp::de::Error::DeserializeError), e.to_string()), _ => fine() } }
    } else {
        let v = Node::from_j(st.get("v")); let mut w = Failing { got: vec![], calls: 0, at: st.get("cap").int() as usize, sticky: false, hit: false };
        if j { match jser_to(fl, &mut w, &v) { Err(e) => show(name(&e), msg!(&e, json::ser::Error::SerializeError), e.to_string()), _ => fine() } }
        else { match mser_to(fl, &mut w, &v) { Err(e) => show(name(&e), msg!(&e, mp::ser::Error::SerializeError), e.to_string()), _ => fine() } }
    }
}

// ---------------------------------------------------------------------------------------------
// nesting: layers upon layers of the same thing; what is reported is taken apart again, layer by layer
fn fill(layer: &Node, with: Node) -> Node {
    if layer.k == "hole" { return with }
    let mut with = Some(with); let mut x = layer.clone();
    fn go(x: &mut Node, with: &mut Option<Node>) { for c in x.c.iter_mut() { if c.k == "hole" { if let Some(w) = with.take() { *c = w } } else { go(c, with) } } }
    go(&mut x, &mut with); x
}
fn nest(layer: &Node, n: usize, core: Node) -> Node { let mut x = core; for _ in 0..n { x = fill(layer, x) } x }
/// takes out what stands at the path
fn take(v: &mut Node, at: &[usize]) -> Option<Node> {
    let mut x = v; for &k in at { x = x.c.get_mut(k - 1)? }
    Some(std::mem::replace(x, Node::leaf("hole")))
}
/// (outermost, the different layers, how many there are, the innermost)
fn peel(v: Node, oat: &[usize], at: &[usize], n: usize) -> (Node, Vec<Node>, usize, Node) {
    let mut outer = v;
    let mut x = if oat.is_empty() { std::mem::replace(&mut outer, Node::leaf("hole")) } else { match take(&mut outer, oat) { Some(x) => x, None => { std::mem::forget(outer); return (null(), vec![], 0, null()) } } };
    let mut ls: Vec<Node> = vec![]; let mut k = 0;
    while k < n {
        let Some(inner) = take(&mut x, at) else { break };
        if !ls.contains(&x) { ls.push(x) }
        x = inner; k += 1;
        if ls.len() > 3 { break }
    }
    (outer, ls, k, x)
}
fn peeled(v: Node, st: &J, n: usize, more: Vec<(&str, J)>) -> J {
    let path = |f: &str| -> Vec<usize> { st.get(f).arr().iter().map(|x| x.int() as usize).collect() };
    let (o, ls, k, x) = peel(v, &path("oat"), &path("at"), n);
    let core = if k == n { x.to_j() } else { null().to_j() };
    std::mem::forget(x);
    let mut r = more; r.extend([("outer", o.to_j()), ("ls", J::A(ls.iter().take(4).map(|l| if k == n { l.to_j() } else { null().to_j() }).collect())), ("k", J::I(k as i64)), ("core", core)]);
    js::obj(r)
}
fn op_nest(st: &J) -> J {
    let n = st.get("n").int() as usize; let fl = st.get("fl").int(); let j = st.get("fmt").str() == "j";
    let sh = fill(&Node::from_j(st.get("osh")), nest(&Node::from_j(st.get("sh")), n, Node::from_j(st.get("csh"))));
    let bad = |e: String| js::obj(vec![("e", js::s(&e))]);
    let read = |input: &mut Vec<u8>| -> (String, Option<Node>, usize) {
        if j { let r = dyn_jde(fl, &sh, input); (ename(&r), r.ok(), 0) }
        else { let l = input.len(); let r = dyn_mde(&sh, input); let e = ename(&r); let (v, n) = r.map_or((None, 0), |(v, n)| (Some(v), n)); (e, v, l - n.min(l)) }
    };
    if st.get("op").str() == "nest" {
        let mut input = st.get("pre").bytes();
        for _ in 0..n { input.extend_from_slice(&st.get("open").bytes()) }
        input.extend_from_slice(&st.get("mid").bytes());
        for _ in 0..n { input.extend_from_slice(&st.get("close").bytes()) }
        input.extend_from_slice(&st.get("post").bytes());
        let (e, v, rest) = read(&mut input);
        match v { None => bad(e), Some(v) if st.get("peel").int() == 1 => peeled(v, st, n, vec![("e", js::s("")), ("rest", J::I(rest as i64))]),
                  Some(v) => js::obj(vec![("e", js::s("")), ("rest", J::I(rest as i64)), ("v", v.to_j())]) }
    } else {
        let v = nest(&Node::from_j(st.get("v")), n, Node::from_j(st.get("cv")));
        let (e, mut o, s) = if j { jser(fl, &v) } else { mser(fl, &v) };
        if !e.is_empty() { return bad(e) }
        let (op, cl) = (st.get("open").bytes(), st.get("close").bytes());
        let (mut a, mut b, mut p, mut q) = (0, o.len(), 0, 0);
        while p < n && o[a..b].starts_with(&op) { a += op.len(); p += 1 }
        while q < n && o[a..b].ends_with(&cl) { b -= cl.len(); q += 1 }
        let mid = js::bytes(&o[a..b.min(a + 200)]);
        let (e2, back, rest) = read(&mut o);
        let mut r = vec![("e", js::s("")), ("s", J::I(s)), ("p", J::I(p as i64)), ("q", J::I(q as i64)), ("mid", mid), ("e2", js::s(&e2)), ("rest", J::I(rest as i64))];
        match back { Some(v) => peeled(v, st, n, r), None => { r.push(("k", J::I(-1))); js::obj(r) } }
    }
}

/// the description of every error variant
fn op_texts() -> J {
    let has = cfg!(any(feature = "std", feature = "alloc"));
    macro_rules! all { ($p:ident, $($v:ident)*) => { vec![$($p::$v.to_string()),*] } }
    let mut jd = { use json::de::Error as E; all!(E, UnexpectedEof InvalidEscapeSequence StringControlChar ExpectedColon ExpectedArrayCommaOrEnd ExpectedArrayEnd LeadingArrayComma TrailingArrayComma ExpectedObjectCommaOrEnd ExpectedObjectEnd LeadingObjectComma
        TrailingObjectComma ExpectedToken ExpectedNull ExpectedString ExpectedArray ExpectedObject ExpectedStruct ExpectedEnumValue ExpectedEnumObjectEnd InvalidNumber InvalidType InvalidUnicodeCodePoint KeyMustBeAString TrailingCharacters UnexpectedChar InvalidLength) };
    let mut md = { use mp::de::Error as E; all!(E, UnexpectedEof ReservedCode UnsupportedExt InvalidInteger InvalidType InvalidUnicodeCodePoint ExpectedInteger ExpectedNumber ExpectedString ExpectedBin ExpectedNil ExpectedArray ExpectedMap ExpectedStruct ExpectedIdentifier TrailingElements InvalidLength) };
    let mut js_ = { type E = json::ser::Error<ser_write::SerError>; let mut t = all!(E, InvalidKeyType FormatError); t.push(E::Writer(ser_write::SerError::BufferFull).to_string()); t };
    let mut ms = { type E = mp::ser::Error<ser_write::SerError>; let mut t = all!(E, MapLength SeqLength StrLength DataLength FieldSkipped FormatError); t.push(E::Writer(ser_write::SerError::BufferFull).to_string()); t };
    #[cfg(any(feature = "std", feature = "alloc"))] {
        jd.push(json::de::Error::DeserializeError("mine".into()).to_string()); md.push(mp::de::Error::DeserializeError("mine".into()).to_string());
        js_.push(json::ser::Error::<ser_write::SerError>::Utf8Encode.to_string());
        js_.push(json::ser::Error::<ser_write::SerError>::SerializeError("mine".into()).to_string()); ms.push(mp::ser::Error::<ser_write::SerError>::SerializeError("mine".into()).to_string());
    }
    #[cfg(not(any(feature = "std", feature = "alloc")))] {
        jd.push(json::de::Error::DeserializeError.to_string()); md.push(mp::de::Error::DeserializeError.to_string());
        js_.push(json::ser::Error::<ser_write::SerError>::SerializeError.to_string()); ms.push(mp::ser::Error::<ser_write::SerError>::SerializeError.to_string());
    }
    let list = |v: Vec<String>| J::A(v.iter().map(|t| js::bytes(t.as_bytes())).collect());
    let full = ser_write::SerError::BufferFull.to_string();
    js::obj(vec![("has", J::B(has)), ("full", js::bytes(full.as_bytes())), ("t", J::A(vec![list(jd), list(md), list(js_), list(ms)]))])
}

pub fn exec(st: &J) -> J {
    let op = st.get("op").str();
    let fl = st.get("fl").int();
    match op {
        "jser" | "mser" => {
            let v = Node::from_j(st.get("v"));
            let (e, o, s) = if op == "jser" { jser(fl, &v) } else { mser(fl, &v) };
            js::obj(vec![("e", js::s(&e)), ("o", js::bytes(&o)), ("s", J::I(s))])
        }
        "jde" => op_jde(fl, &Node::from_j(st.get("sh")), &st.get("in").bytes()),
        "mde" => op_mde(&Node::from_j(st.get("sh")), &st.get("in").bytes()),
        "far" => op_far(st),
        "jrt" | "mrt" => {
            let v = Node::from_j(st.get("v"));
            let sh = Node::from_j(st.get("sh"));
            let (e, o, _) = if op == "jrt" { jser(fl, &v) } else { mser(fl, &v) };
            let d = if !e.is_empty() { J::Null } else if op == "jrt" { op_jde(fl, &sh, &o) } else { op_mde(&sh, &o) };
            js::obj(vec![("e", js::s(&e)), ("o", js::bytes(&o)), ("d", d)])
        }
        "jpre" | "mpre" => {
            let sh = Node::from_j(st.get("sh"));
            let input = st.get("in").bytes();
            let mut es = vec![];
            for k in 0..input.len() {
                let e = if op == "jpre" { ename(&dyn_jde(fl, &sh, &mut input[..k].to_vec())) } else { ename(&dyn_mde(&sh, &input[..k])) };
                es.push(js::s(&e));
            }
            js::obj(vec![("es", J::A(es))])
        }
        "sink" => op_sink(st),
        "serf" => op_serf(st),
        "jcur" => op_jcur(st),
        "mcur" => op_mcur(st),
        "b64e" => { let b = st.get("b").bytes(); let mut w = Buf(vec![]); let p = json::base64::encode(&mut w, &b);
            js::obj(vec![("o", js::bytes(&w.0)), ("n", J::I(p.unwrap() as i64))]) }
        "b64d" => { let mut b = st.get("b").bytes(); let (d, e) = json::base64::decode(&mut b);
            js::obj(vec![("d", J::I(d as i64)), ("u", J::I(e as i64)), ("o", js::bytes(&b))]) }
        "err" => op_err(st),
        // (the 32-bit build has neither threads nor room)
        "nest" | "nestser" | "deep" if cfg!(target_arch = "wasm32") => J::Null,
        // (room for the recursion of the visitors of an unoptimized build)
        "nest" | "nestser" => std::thread::scope(|s| std::thread::Builder::new().stack_size(128 << 20).spawn_scoped(s, || op_nest(st)).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e))),
        "texts" => op_texts(),
        "hexs" => { let b = st.get("b").bytes(); let mut s = json::ser::SerializerByteHexStr::new(Buf(vec![])); let r = s.serialize_bytes_as_hex_str(&b);
            js::obj(vec![("e", js::s(&ename(&r))), ("o", js::bytes(&s.into_inner().0))]) }
        "big" => op_big(st),
        "deep" => op_deep(st),
        "ty" => crate::types::op_ty(st),
        "tyd" => crate::types::op_tyd(st),
        x => panic!("op {x}"),
    }
}

// ---------------------------------------------------------------------------------------------
// environment tables: decimal text <-> float, from the standard library
fn hexbits(b: &[u8]) -> J { js::bytes(b) }
/// also: 0 = the runs of number characters, 1 = and their beginnings, 2 = and their ends
pub fn float_table(inp: &[u8], also: u8, seen: &mut Vec<Vec<u8>>, out: &mut Vec<J>) {
    let num = |b: u8| matches!(b, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E');
    let mut i = 0;
    while i < inp.len() {
        if !num(inp[i]) { i += 1; continue }
        let a = i;
        while i < inp.len() && num(inp[i]) { i += 1 }
        add_lex(&inp[a..i], seen, out);
        // a lexeme may also start inside the run, after a literal such as true
        if also == 1 { for k in a + 1..i { add_lex(&inp[a..k], seen, out) } }
        if also == 2 { for k in a + 1..i { add_lex(&inp[k..i], seen, out) } }
        if inp[a] == b'e' || inp[a] == b'E' { for k in a + 1..i { add_lex(&inp[k..i], seen, out) } }
    }
}
fn add_lex(l: &[u8], seen: &mut Vec<Vec<u8>>, out: &mut Vec<J>) {
    if seen.iter().any(|x| x == l) { return }
    seen.push(l.to_vec());
    let s = core::str::from_utf8(l).unwrap();
    let d = s.parse::<f64>().map(|x| x.to_bits().to_be_bytes().to_vec()).unwrap_or_default();
    let f = s.parse::<f32>().map(|x| x.to_bits().to_be_bytes().to_vec()).unwrap_or_default();
    out.push(js::obj(vec![("l", js::bytes(l)), ("d", hexbits(&d)), ("s", hexbits(&f))]));
}
pub fn digits(n: &Node, seen: &mut Vec<Vec<u8>>, out: &mut Vec<J>) {
    if (n.k == "f32" || n.k == "f64") && !n.b.is_empty() && !seen.contains(&n.b) {
        let t = if n.k == "f32" { let x = n.as_f32(); if !x.is_finite() || x == 0.0 { return } format!("{:e}", x.abs()) }
                else { let x = n.as_f64(); if !x.is_finite() || x == 0.0 { return } format!("{:e}", x.abs()) };
        seen.push(n.b.clone());
        let (m, e) = t.split_once('e').unwrap();
        let dg = even(m.bytes().filter(|&b| b != b'.').collect(), n);
        let e: i64 = e.parse().unwrap();
        out.push(js::obj(vec![("b", js::bytes(&n.b)), ("dg", js::bytes(&dg)), ("n", J::I(e + 1))]));
    }
    for c in &n.c { digits(c, seen, out) }
}
/// where two shortest decimals are equally close, the one with the even last digit (as ECMAScript's Number::toString has it)
fn even(dg: Vec<u8>, n: &Node) -> Vec<u8> {
    let exact = if n.k == "f32" { format!("{:.160e}", n.as_f32().abs()) } else { format!("{:.800e}", n.as_f64().abs()) };
    let (m, e) = exact.split_once('e').unwrap();
    let x: Vec<u8> = m.bytes().filter(|&b| b != b'.').collect();
    let x = &x[..x.iter().rposition(|&b| b != b'0').unwrap() + 1];
    if x.len() != dg.len() + 1 || x[dg.len()] != b'5' || dg[dg.len() - 1] % 2 == 0 { return dg }
    // the other neighbour
    let low = x[..dg.len()].to_vec();
    let other = if low != dg { low } else { let mut up = low; *up.last_mut().unwrap() += 1; if *up.last().unwrap() > b'9' { return dg } up };
    let t = format!("{}.{}e{}", other[0] as char, std::str::from_utf8(&other[1..]).unwrap(), e);
    let same = if n.k == "f32" { t.parse::<f32>().unwrap() == n.as_f32().abs() } else { t.parse::<f64>().unwrap() == n.as_f64().abs() };
    if same { other } else { dg }
}
/// the tables a stimulus (and its result) needs
pub fn tables(st: &J, res: &J) -> (J, J) {
    let (mut s1, mut ft, mut s2, mut fs) = (vec![], vec![], vec![], vec![]);
    match st.get("op").str() {
        "far" if st.get("fmt").str() == "j" => float_table(&st.get("in").bytes(), 0, &mut s1, &mut ft),
        "jde" => float_table(&st.get("in").bytes(), 0, &mut s1, &mut ft),
        "jpre" => float_table(&st.get("in").bytes(), 1, &mut s1, &mut ft),
        "jcur" => float_table(&st.get("in").bytes(), 2, &mut s1, &mut ft),
        "jser" => digits(&Node::from_j(st.get("v")), &mut s2, &mut fs),
        "jrt" => { digits(&Node::from_j(st.get("v")), &mut s2, &mut fs); float_table(&res.get("o").bytes(), 0, &mut s1, &mut ft) }
        "serf" if st.get("fmt").str() == "j" => for v in st.get("vs").arr() { digits(&Node::from_j(v), &mut s2, &mut fs) },
        "tyd" if st.get("fmt").str() == "j" => float_table(&st.get("in").bytes(), 0, &mut s1, &mut ft),
        "ty" if st.get("fmt").str() == "j" => { digits(&Node::from_j(res.get("w")), &mut s2, &mut fs); }
        "nest" if st.get("fmt").str() == "j" => { let part = |f: &str| st.get(f).bytes(); let two = |f: &str| part(f).repeat(2);
            float_table(&[part("pre"), two("open"), part("mid"), two("close"), part("post")].concat(), 0, &mut s1, &mut ft) }
        "err" if st.get("fmt").str() == "j" => if matches!(st.get("in"), J::A(_)) { float_table(&st.get("in").bytes(), 0, &mut s1, &mut ft) }
                                               else { digits(&Node::from_j(st.get("v")), &mut s2, &mut fs) },
        _ => {}
    }
    (J::A(ft), J::A(fs))
}
