"""Changes that break a property and that the repository's own tests do not notice.  plant.py turns them into seeded/."""
JS, JD, B64, MS, MD, LIB, FOR = ("ser-write-json/src/ser.rs", "ser-write-json/src/de.rs", "ser-write-json/src/base64.rs", "ser-write-msgpack/src/ser.rs", "ser-write-msgpack/src/de.rs", "src/lib.rs", "src/foreign.rs")
PLANTS = []
def plant(id, property, edits, demo, needs, breaks, **k): PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

# ---- C01
plant("c01-f32-large", "C01", [(JS, """        if v.is_finite() {
            serialize_ryu!(self, v)
        } else {
            self.serialize_none()
        }
    }

    fn serialize_f64""", """        if v.is_finite() {
            // integral values need no fraction digits
            if v.abs() >= 16777216.0 { serialize_ryu!(self, f64::from(v)) } else { serialize_ryu!(self, v) }
        } else {
            self.serialize_none()
        }
    }

    fn serialize_f64""")],
    'assert_eq!(j(&1.1e10f32).unwrap(), "11000000000"); assert_eq!(j(&3.4028235e38f32).unwrap(), "3.4028235e+38"); assert_eq!(j(&16777216.0f32).unwrap(), "16777216");',
    "a single precision float of 2^24 or more whose shortest form has fewer digits than its exact value", "such floats are printed with the digits of the double of the same value")
plant("c01-skip-first", "C01", [(JS, """        if self.first {
            self.first = false;
        }
        else {
            self.ser.output.write_byte(b',')?;
        }
        key.serialize(&mut *self.ser)?;
        self.ser.output.write(b":")?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write(b"}}")?)
    }""", """        if self.first {
            self.first = false;
        }
        else {
            self.ser.output.write_byte(b',')?;
        }
        key.serialize(&mut *self.ser)?;
        self.ser.output.write(b":")?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), W::Error> {
        self.first = false;
        Ok(())
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write(b"}}")?)
    }""")],
    'assert_eq!(j(&E::V { a: None, b: 2 }).unwrap(), r#"{"V":{"b":2}}"#); assert_eq!(j(&E::V { a: Some(1), b: 2 }).unwrap(), r#"{"V":{"a":1,"b":2}}"#);',
    "a struct variant whose first field is skipped", "the object begins with a comma", items='#[derive(Serialize)] enum E { V { #[serde(skip_serializing_if = "Option::is_none")] a: Option<u8>, b: u8 } }')
# ---- C02
plant("c02-char-key", "C02", [(JS, "        self.ser.serialize_char(v)\n", "        if v.is_ascii_graphic() {\n            return self.ser.output.write(&[b'\"', v as u8, b'\"']).map_err(From::from)\n        }\n        self.ser.serialize_char(v)\n")],
    r'''let mut h = BTreeMap::new(); h.insert('"', 1); assert_eq!(j(&h).unwrap(), r#"{"\"":1}"#); let mut h = BTreeMap::new(); h.insert('\\', 1); assert_eq!(j(&h).unwrap(), r#"{"\\":1}"#);''',
    "a map keyed by characters, with the quote or the backslash among them", "the key is written unescaped: the output is not JSON")
plant("c02-newtype-key", "C02", [(JS, """    fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, W::Error> {
        Err(Error::InvalidKeyType)
    }

    fn serialize_tuple(self, _len: usize) -> Result<Self::SerializeTuple, W::Error> {
        Err(Error::InvalidKeyType)
    }

    fn serialize_tuple_struct(""", """    fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, W::Error> {
        match len {
            // an empty key has nothing to quote
            Some(0) => self.ser.serialize_seq(len),
            _ => Err(Error::InvalidKeyType)
        }
    }

    fn serialize_tuple(self, _len: usize) -> Result<Self::SerializeTuple, W::Error> {
        Err(Error::InvalidKeyType)
    }

    fn serialize_tuple_struct(""")],
    'let mut h = BTreeMap::new(); h.insert(Vec::<u8>::new(), 1); assert!(j(&h).is_err());', "a map keyed by sequences, with the empty one as a key", "the key is written as [] and the output is not JSON")
# ---- C03
# ---- C04
plant("c04-f32-double-rounding", "C04", [(JD, "visitor.visit_f32(self.parse_float()?.unwrap_or(f32::NAN))", "visitor.visit_f32(self.parse_float::<_, f64>()?.map_or(f32::NAN, |f| f as f32))")],
    'assert_eq!(jd::<f32>("1.00000017881393432617187499").unwrap().to_bits(), 0x3f800001);', "a decimal just below the middle of two singles", "it is rounded twice and becomes the wrong single")
plant("c04-enum-struct-array", "C04", [(JD, """            b'[' => self.deserialize_seq(visitor),
            _ => Err(Error::ExpectedStruct)""", """            b'[' if !_fields.is_empty() => self.deserialize_seq(visitor),
            _ => Err(Error::ExpectedStruct)""")],
    'assert!(jd::<Vec<S>>("[[],{}]").is_ok());', "a struct without fields written as an empty array", "the text is rejected", items="#[derive(Deserialize)] struct S {}")
# ---- C05
plant("c05-backslash-run", "C05", [(JD, """                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| end - start);
                        if count % 2 == 0 {""", """                        let count = self.input[start..end].iter().rev()
                            .take(4)
                            .take_while(|&&b| b == RS)
                            .count();
                        if count % 2 == 0 {""")],
    r'''#[derive(Deserialize)] struct S { a: u8 } assert!(jd::<S>("{\"x\":\"\\\\\\\\\\\",\"a\":1}").is_err()); assert_eq!(jd::<S>("{\"x\":\"\\\\\\\\\\\",\",\"a\":1}").unwrap().a, 1);''',
    "an ignored string with an escaped quote after two or more escaped backslashes", "the string is taken to end at the escaped quote")
plant("c05-map-comma", "C05", [(JD, """                match self.de.eat_whitespace()? {
                    b'}' => return Err(Error::TrailingObjectComma),
                    ch => ch
                }""", """                match self.de.eat_whitespace()? {
                    b'}' => return Err(Error::TrailingObjectComma),
                    // tolerate a doubled separator
                    b',' => {
                        self.de.eat_some(1);
                        self.de.eat_whitespace()?
                    }
                    ch => ch
                }""")],
    r'''assert!(jd::<BTreeMap<String, u8>>(r#"{"a":1,,"b":2}"#).is_err()); ''', "two commas between entries of an object", "text that is not JSON is accepted")
plant("c05-string-del", "C05", [(JD, "slice.iter().position(|&b| matches!(b, RS|QU) || b <= 0x1F))", "slice.iter().position(|&b| matches!(b, RS|QU) || b < 0x1F))")],
    r'''assert!(jd::<String>("\"a\u{1f}\"").is_err());''', "the control character 0x1F inside a string that is decoded", "it is accepted unescaped")
# ---- C06
plant("c06-unicode-cut", "C06", [(JD, "let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?\n", "let code = self.input.get(index+1..index+5).ok_or(Error::InvalidEscapeSequence)?\n")],
    r'''assert!(matches!(jd::<String>(r#""a\u00"#), Err(json::de::Error::UnexpectedEof)));''', "a text cut inside a \\u escape", "truncation is reported as an invalid escape")
# ---- C07
plant("c07-base64-tail", "C07", [(B64, "            Err(packed) => return handle_tail(dcount, packed, dest)\n", """            Err(packed) => {
                // an incomplete group is decoded in place as well
                if packed > 1 {
                    if let Some(cell) = cells.get(dcount / 3 * 4 + 3) { if cell.get() != b'"' && cell.get() != b'=' && slice[2].get() == b'"' { cell.set(b' '); } }
                }
                return handle_tail(dcount, packed, dest)
            }
""")],
    r'''let mut b = br#"{"QQ":"QQ"}"#.to_vec(); let mut de = json::de::DeserializerBase64ByteStr::from_mut_slice(&mut b); de.eat_some(2); assert_eq!(de.parse_base64_bytes_content().unwrap(), b"A"); assert_eq!(de.peek().unwrap(), b':'); let mut c = br#"["QQ",["QQ"]]"#.to_vec(); assert!(json::de::from_mut_slice_base64_bytes::<(serde_bytes::ByteBuf, Vec<serde_bytes::ByteBuf>)>(&mut c).is_ok());''',
    "Base-64 of one byte without padding, followed by text", "a byte of the text after the string is overwritten while decoding")
# ---- C08
plant("c08-b64-len16", "C08", [(B64, "    let ecount = dcount * 4 / 3 + leftovers as usize;\n", "    let ecount = (dcount as u16 / 3 * 4) as usize + leftovers as usize;\n")],
    '''let v: Vec<u8> = (0..70001u32).map(|x| x as u8).collect(); let mut s = Sink::default(); json::ser::to_writer_base64_bytes(&mut s, serde_bytes::Bytes::new(&v)).unwrap(); assert_eq!(json::de::from_mut_slice_base64_bytes::<serde_bytes::ByteBuf>(&mut s.0).unwrap().as_ref(), &v[..]);''',
    "Base-64 text of 64 KiB or more", "the length consumed wraps around", release=True)
plant("c08-hex-case", "C08", [(JD, "        _ => match ch|0x20 {\n            n@b'a'..=b'f' => Some(n - b'a' + 10),", "        _ => match ch|0x20 {\n            n@b'a'..=b'f' => Some((n & 0x0f) + 9),\n            n@0x30..=0x39 if ch < 0x20 => Some(n & 0x0f),")],
    r'''let mut b = b"\"a\x11\"".to_vec(); assert!(json::de::from_mut_slice_hex_bytes::<serde_bytes::ByteBuf>(&mut b).is_err());''', "a control character among hexadecimal digits", "it is taken for a digit")
# ---- C09
# ---- C10
plant("c10-bin-255", "C10", [(MS, "        if let Ok(size) = u8::try_from(size) {\n            self.output.write_byte(BIN_8)?;", "        if let (Ok(size), true) = (u8::try_from(size), size < 255) {\n            self.output.write_byte(BIN_8)?;")],
    'assert_eq!(m(serde_bytes::Bytes::new(&[7; 255])).unwrap()[..2], [0xc4, 255]);', "a byte string of exactly 255 bytes", "its length takes two bytes where one does")
plant("c10-str-65536", "C10", [(MS, "    else if let Ok(len) = u16::try_from(len) {\n        output.write_byte(STR_16)?;\n        output.write(&len.to_be_bytes())?;", "    else if len <= 0x1_0000 {\n        output.write_byte(STR_16)?;\n        output.write(&(len as u16).to_be_bytes())?;")],
    'let s = "x".repeat(65536); assert_eq!(md::<String>(&m(&s).unwrap()).unwrap(), s);', "a string of exactly 65536 bytes", "its length is written as zero")
# ---- C11
plant("c11-tuple-variant-end", "C11", [(MS, """    fn serialize_field<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }""", """    fn serialize_field<T>(&mut self, value: &T) -> Result<(), E>
    where T: ?Sized + Serialize
    {
        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        // the length was fixed by the derive
        debug_assert!(self.len < usize::MAX);
        Ok(())
    }""")],
    'assert!(m(&T).is_err());', "a hand written tuple variant that announces more fields than it gives", "a message with a wrong length is written without an error",
    items='struct T; impl Serialize for T { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut t = s.serialize_tuple_variant("T", 0, "V", 2)?; t.serialize_field(&1)?; t.end() } }')
# ---- C12
plant("c12-ident-u16", "C12", [(MD, """            UINT_8|
            UINT_16|
            UINT_32 => self.deserialize_u32(visitor),""", """            UINT_8|
            UINT_32 => self.deserialize_u32(visitor),""")],
    'for v in 0..40usize { let e: u32 = v as u32 * 7; let b = mi(&Idx(e)).unwrap(); assert_eq!(md::<Idx>(&b).unwrap().0, e, "{e}"); }', "an enum variant or struct field with an index above 255", "what was written is not read back",
    items='''struct Idx(u32);
impl Serialize for Idx { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit_variant("E", self.0, "V") } }
impl<'de> Deserialize<'de> for Idx { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Idx; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("E") }
        fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<Idx, A::Error> { use serde::de::VariantAccess; let (i, v): (Ident, _) = a.variant()?; v.unit_variant()?; Ok(Idx(i.0)) } }
    d.deserialize_enum("E", &[], V) } }
struct Ident(u32);
impl<'de> Deserialize<'de> for Ident { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Ident; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("index") }
        fn visit_u64<E>(self, v: u64) -> Result<Ident, E> { Ok(Ident(v as u32)) } }
    d.deserialize_identifier(V) } }''')
plant("c12-option-unit", "C12", [(MD, """            NIL => {
                self.eat_some(1);
                visitor.visit_none()
            }
            _ => visitor.visit_some(self)""", """            NIL => {
                self.eat_some(1);
                visitor.visit_none()
            }
            // no value
            FIXMAP => {
                self.eat_some(1);
                visitor.visit_none()
            }
            _ => visitor.visit_some(self)""")],
    'let v = Some(BTreeMap::<u8, u8>::new()); assert_eq!(md::<Option<BTreeMap<u8, u8>>>(&m(&v).unwrap()).unwrap(), v);', "an optional map that is present and empty", "it is read back as missing")
# ---- C13
plant("c13-f32-from-f64", "C13", [(MD, "            INT_64  => self.fetch_i64()? as f32,", "            INT_64  => self.fetch_i64()? as f64 as f32,")],
    'let n: i64 = 0x0020_0000_2000_0001; let mut b = vec![0xd3]; b.extend(n.to_be_bytes()); assert_eq!(md::<f32>(&b).unwrap(), n as f32);', "a 64 bit integer read as a single, just above the middle between two singles", "it is rounded twice")
# ---- C14
plant("c14-ext-len", "C14", [(MD, "            EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),", "            EXT_16 => Single(usize::from(self.fetch_u16()?.saturating_add(1))),")],
    'let mut b = vec![0xc8, 0xff, 0xff, 1]; b.extend(vec![7u8; 65535]); b.push(0xc0); let (_, n) = mp::de::from_slice::<serde::de::IgnoredAny>(&b).unwrap(); assert_eq!(n, 65539);', "an extension of exactly 65535 bytes that is skipped", "the message is taken to end a byte early")
# ---- C15
plant("c15-map32-ignored", "C15", [(MD, "            MAP_16 => Map(self.fetch_u16()?.into()),", "            MAP_16 => Map(self.fetch_i16()?.unsigned_abs().into()),")],
    'let mut b = vec![0xde, 0x80, 0x01]; for _ in 0..0x8001 { b.extend([1, 2]); } b.push(0xc0); let (_, n) = mp::de::from_slice::<serde::de::IgnoredAny>(&b).unwrap(); assert_eq!(n, b.len() - 1);', "a map of more than 32768 entries that is skipped", "too few entries are skipped")
plant("c15-ignored-key", "C15", [(JD, """            b'"' => {
                self.eat_some(1);
                self.eat_str_content()?;
                visitor.visit_unit()
            }
            b'0'""", """            b'"' => {
                self.eat_some(1);
                // only strings with escapes have to be looked at closer
                match self.input[self.index..].iter().position(|&b| b == QU) {
                    Some(n) if n > 0 && self.input[self.index + n - 1] != RS && !self.input[self.index..self.index + n].iter().any(|&b| b < 0x20) => self.eat_some(n + 1),
                    _ => {
                        let len = self.input[self.index..].windows(2).position(|w| w[1] == QU && w[0] != RS).map(|n| n + 2);
                        match len {
                            Some(n) if !self.input[self.index..self.index + n].contains(&RS) => self.eat_some(n),
                            Some(n) if self.input[self.index..self.index + n].windows(3).all(|w| w != [RS, RS, QU]) => self.eat_some(n),
                            _ => self.eat_str_content()?
                        }
                    }
                }
                visitor.visit_unit()
            }
            b'0'""")],
    r'''#[derive(Deserialize)] struct S { a: u8 } assert_eq!(jd::<S>("{\"x\":\"\",\"a\":1}").unwrap().a, 1); assert_eq!(jd::<S>("{\"x\":\"\\\\\",\"y\":\"b\",\"a\":1}").unwrap().a, 1); assert!(jd::<S>("{\"x\":\"\\\"\n\",\"a\":1}").is_err());''',
    "an ignored string that is empty, or that ends with an escaped backslash", "the string is taken to end later than it does")
# ---- C16
plant("c16-arrayvec-partial", "C16", [(FOR, "        self.try_extend_from_slice(buf).map_err(From::from)\n", "        for &byte in buf {\n            self.try_push(byte)?;\n        }\n        Ok(())\n")],
    'let mut v = arrayvec::ArrayVec::<u8, 4>::new(); v.write(b"ab").unwrap(); assert!(v.write(b"cde").is_err()); assert_eq!(v.as_slice(), b"ab");', "a write that does not fit in an ArrayVec that has room for a part of it", "a part of the bytes is stored although the write fails")
plant("c16-slicewriter-short", "C16", [(LIB, """            None => Err(SerError::BufferFull)
        }
    }
}""", """            None => {
                // keep what fits
                let room = self.rem_capacity();
                if let Some(chunk) = self.buf.get_mut(self.len..) { chunk.copy_from_slice(&buf[..room]); }
                self.len = self.buf.len();
                Err(SerError::BufferFull)
            }
        }
    }
}""")],
    'let mut b = [0u8; 4]; let mut v = SliceWriter::new(&mut b); v.write(b"ab").unwrap(); assert!(v.write(b"cde").is_err()); assert_eq!(v.as_ref(), b"ab");', "a write that does not fit in the room left of a SliceWriter", "the writer is filled up although the write fails")
plant("c16-split-tail", "C16", [(LIB, "        let (res, buf) = self.buf.split_at_mut(self.len);\n        (res, Self { buf, len: 0 })", "        let len = self.len;\n        let (res, buf) = self.buf.split_at_mut(len);\n        // an untouched tail can be written again\n        let len = if res.is_empty() || !buf.is_empty() { 0 } else { buf.len() };\n        let cap = buf.len() - usize::from(res.len() % 2 == 1 && !buf.is_empty());\n        (res, Self { buf: &mut buf[..cap], len })")],
    'let mut b = [0u8; 4]; let mut v = SliceWriter::new(&mut b); v.write(b"abc").unwrap(); let (h, mut t) = v.split(); assert_eq!(h, b"abc"); assert_eq!(t.capacity(), 1); t.write(b"d").unwrap();', "splitting a SliceWriter after an odd number of bytes", "the tail loses a byte of room")
# ---- C17
# ---- C18
plant("c18-uuuu-index", "C18", [(JD, "                                let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?\n                                           .try_into().unwrap();", "                                if index + 4 > self.input.len() {\n                                    break Err(Error::UnexpectedEof)\n                                }\n                                let code = self.input[index+1..index+5].try_into().unwrap();")],
    r'''for t in ["\"\\u", "\"\\u0", "\"\\u00", "\"\\u004", "\"\\u0041"] { assert!(jd::<String>(t).is_err()); }''', "a text that ends after the third digit of a \\u escape", "the decoder panics")
plant("c18-mp-len-overflow", "C18", [(MD, "        let res = self.input.get(index..index+N)\n        .ok_or(Error::UnexpectedEof)?\n        .try_into().unwrap();", "        if index > self.input.len() || self.input.len() - index < N - N / 8 {\n            return Err(Error::UnexpectedEof)\n        }\n        let res = self.input[index..index+N].try_into().unwrap();")],
    'for n in 0..9 { let mut b = vec![0xcfu8]; b.resize(1 + n, 1); let _ = md::<u64>(&b); let mut b = vec![0xcbu8]; b.resize(1 + n, 1); let _ = md::<f64>(&b); }', "an eight byte number of which the last byte is missing", "the decoder panics")
# ---- C19
plant("c19-display-chars", "C19", [(MS, "        self.0 = self.0.checked_add(s.len()).ok_or(fmt::Error)?;", "        self.0 = self.0.checked_add(s.chars().map(|c| if c.is_alphanumeric() && c < '\\u{100}' { 1 } else { c.len_utf8() }).sum()).ok_or(fmt::Error)?;")],
    'assert_eq!(m(&D).unwrap(), [0xa3, b\'a\', 0xc3, 0xa9]);', "a Display value with a letter of Latin-1, serialized without an allocator", "the no_std build fails or writes a wrong length where the std build does not",
    items='struct D; impl Serialize for D { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str("aé") } }', features="")
# ---- C20
plant("c20-remaining-len", "C20", [(JD, "        self.input.len().saturating_sub(self.index)\n", "        match self.input.len().checked_sub(self.index) {\n            Some(n) => n,\n            None => self.index - self.input.len()\n        }\n")],
    r'''let mut b = b"12".to_vec(); let mut d = json::de::DeserializerNopeByteStr::from_mut_slice(&mut b); d.eat_some(5); assert_eq!(d.remaining_len(), 0);''', "a cursor moved past the end of its input", "the rest of the input is said to be not empty")
plant("c20-token-eat", "C20", [(JD, """            else {
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)""", """            else {
                // leave the cursor at the first difference
                let same = slice.iter().zip(token).take_while(|(a, b)| a == b).count();
                self.eat_some(same);
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)""")],
    r'''let mut b = b"trap".to_vec(); let mut d = json::de::DeserializerNopeByteStr::from_mut_slice(&mut b); assert!(d.parse_token_content(b"true").is_err()); assert_eq!(d.peek().unwrap(), b't');''', "a token that differs from the input after its first byte", "the cursor moves although the token is rejected")
# ---- C21
plant("c21-int8", "C21", [(MD, "            INT_16 => self.deserialize_i16(visitor),", "            INT_16 => self.deserialize_i8(visitor),")],
    'assert!(md::<Any>(&[0xd1, 0x12, 0x34]).is_ok());', "a 16 bit signed message of a value that needs 16 bits, where the type is not known", "it is rejected",
    items='''struct Any; impl<'de> Deserialize<'de> for Any { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Any; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("int") }
        fn visit_i64<E>(self, _: i64) -> Result<Any, E> { Ok(Any) } fn visit_u64<E>(self, _: u64) -> Result<Any, E> { Ok(Any) } }
    d.deserialize_any(V) } }''')
plant("c02-display-key", "C02", [(JS, "        self.ser.collect_str(value)\n", "        use fmt::Write;\n        // formatted keys seldom need escapes\n        struct Plain<'w, W>(&'w mut W);\n        impl<W: SerWrite> fmt::Write for Plain<'_, W> {\n            fn write_str(&mut self, s: &str) -> fmt::Result { self.0.write_str(s).map_err(|_| fmt::Error) }\n        }\n        self.ser.output.write_byte(b'\"')?;\n        write!(Plain(&mut self.ser.output), \"{}\", value).map_err(|_| Error::FormatError)?;\n        Ok(self.ser.output.write_byte(b'\"')?)\n")],
    r'''let mut h = BTreeMap::new(); h.insert(D("a\"b"), 1); assert_eq!(j(&h).unwrap(), r#"{"a\"b":1}"#); let mut h = BTreeMap::new(); h.insert(D("a"), 1); assert_eq!(j(&h).unwrap(), r#"{"a":1}"#);''',
    "a map keyed by values that are formatted (collect_str), with a key that needs an escape", "the key is written unescaped",
    items='#[derive(PartialEq, Eq, PartialOrd, Ord)] struct D(&\'static str); impl Serialize for D { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self.0) } }')
plant("c03-seq-257", "C03", [(JD, "    de: &'a mut Deserializer<'de, P>,\n    first: bool,\n", "    de: &'a mut Deserializer<'de, P>,\n    seen: u8,\n"), (JD, "            de,\n            first: true,\n", "            de,\n            seen: 0,\n"),
    (JD, """            b']' => return Ok(None),
            b',' => if self.first {
                return Err(Error::LeadingArrayComma)
            }""", """            b']' => return Ok(None),
            b',' => if self.seen == 0 {
                return Err(Error::LeadingArrayComma)
            }"""), (JD, """            _ => if self.first {
                self.first = false;
            }
            else {
                return Err(Error::ExpectedArrayCommaOrEnd);
            }
        }
        seed""", """            _ => if self.seen != 0 {
                return Err(Error::ExpectedArrayCommaOrEnd);
            }
        }
        self.seen = self.seen.wrapping_add(1);
        seed"""), (JD, """            b',' => if self.first {
                return Err(Error::LeadingObjectComma)
            }""", """            b',' => if self.seen == 0 {
                return Err(Error::LeadingObjectComma)
            }"""), (JD, """            ch => if self.first {
                self.first = false;
                ch
            }""", """            ch => if self.seen == 0 {
                self.seen = 1;
                ch
            }""")],
    'let v: Vec<u8> = vec![1; 300]; assert_eq!(jd::<Vec<u8>>(&j(&v).unwrap()).unwrap(), v);', "an array of more than 256 elements", "the comma after element 256 is taken for a leading one")
plant("c04-float-24", "C04", [(JD, """        .position(|&b| !matches!(b, b'0'..=b'9'|b'+'|b'-'|b'.'|b'e'|b'E'))
        .map(|len| &input[..len])
        .unwrap_or(input)""", """        .take(64)
        .position(|&b| !matches!(b, b'0'..=b'9'|b'+'|b'-'|b'.'|b'e'|b'E'))
        .map(|len| &input[..len])
        // no number is longer than this
        .unwrap_or(&input[..input.len().min(24)])""")],
    'let s = format!("[{}]", "1".repeat(70)); assert_eq!(jd::<Vec<f64>>(&s).unwrap()[0], "1".repeat(70).parse::<f64>().unwrap()); let v = -0.0000012345678901234567f64; assert_eq!(jd::<f64>(&j(&v).unwrap()).unwrap(), v); assert_eq!(jd::<f64>("-1.2345678901234567e-6").unwrap(), v);',
    "a text that is, or ends with, a number of more than 24 characters", "the digits after the 24th are taken for something else")
plant("c04-long-escape", "C04", [(JD, """                if gap != 0 {
                    self.input.copy_within(index..end, dest);
                }""", """                if gap != 0 {
                    if end - index > 96 {
                        // the far half first, it is cold
                        let mid = index + (end - index) / 2;
                        self.input.copy_within(mid..end, mid - gap);
                        self.input.copy_within(index..mid, dest);
                    }
                    else {
                        self.input.copy_within(index..end, dest);
                    }
                }""")],
    r'''let tail: String = (0..150u8).map(|n| (b'a' + n % 26) as char).collect(); assert_eq!(jd::<String>(&format!("\"\\n{tail}\"")).unwrap(), format!("\n{tail}"));''', "an escape that is followed by about a hundred plain characters", "bytes in the middle of the decoded string are wrong")
plant("c05-control-after-quote", "C05", [(JD, """        let mut start = self.index;
        loop {
            if let Some(found) = self.input.get(start..).and_then(|slice|
                slice.iter().position(|&b| b == QU || b <= 0x1F))""", """        let mut start = self.index;
        loop {
            // control characters were looked for up to here
            let plain = start == self.index;
            if let Some(found) = self.input.get(start..).and_then(|slice|
                slice.iter().position(|&b| b == QU || b <= 0x1F && plain))""")],
    r'''#[derive(Deserialize)] struct S { a: u8 } assert!(jd::<S>("{\"x\":\"a\\\"b\n\",\"a\":1}").is_err()); assert!(jd::<S>("{\"x\":\"a\\\"b\",\"a\":1}").is_ok());''', "a control character after an escaped quote in a string that is skipped", "it is accepted")
plant("c05-ignored-number", "C05", [(JD, """                let len = self.match_float().len();
                self.eat_some(len);
                visitor.visit_unit()""", """                // up to the end of the member
                let rest = &self.input[self.index..];
                let len = rest.iter().position(|&b| matches!(b, b','|b']'|b'}'|b':'|b'"')).unwrap_or(rest.len());
                let keep = rest[..len].iter().rev().position(|&b| b.is_ascii_digit() || b >= b'A').unwrap_or(len);
                let len = len - keep;
                self.eat_some(len);
                visitor.visit_unit()""")],
    r'''#[derive(Deserialize)] struct S { a: u8 } assert!(jd::<S>(r#"{"x":1 2,"a":1}"#).is_err()); assert!(jd::<S>(r#"{"x":1z,"a":1}"#).is_err()); assert!(jd::<S>(r#"{"x":-1.5e3 ,"a":1}"#).is_ok());''', "an ignored number with something else behind it before the next comma", "text that is not JSON is accepted")
plant("c09-wrap-ten", "C09", [(JD, "                self.checked_mul(10)\n                .ok_or(Error::InvalidNumber)", "                let ten = self.wrapping_mul(10);\n                // the sign or the size tells that it wrapped around\n                if self > Self::ZERO && ten < self || ten > Self::ZERO && self > ten { Err(Error::InvalidNumber) } else { Ok(ten) }")],
    'for n in 0u32..1000 { assert_eq!(jd::<u8>(&n.to_string()).ok().map(u32::from), (n < 256).then_some(n), "{n}"); }', "an integer above the limit whose tenfold wraps to something larger", "another integer is decoded in place of an error")
plant("c09-split-print", "C09", [(JS, """        // "18446744073709551615"
        serialize_unsigned!(self, 20, v)""", """        // "18446744073709551615"
        const BILLION: u64 = 1_000_000_000;
        if v >= BILLION * BILLION {
            // the low half with 32 bit division
            self.serialize_u64(v / BILLION)?;
            return self.serialize_u32((v % BILLION) as u32)
        }
        serialize_unsigned!(self, 20, v)""")],
    'for v in [10u64.pow(18), 10u64.pow(19), 10u64.pow(18) + 5, u64::MAX, 1_000_000_001_234_567_890] { assert_eq!(j(&v).unwrap(), v.to_string()); }', "an integer of 19 or 20 digits with a zero at the ninth digit from the end", "zeros are lost")
plant("c10-i64-u32", "C10", [(MS, """        else if let Ok(v) = u32::try_from(v) {
            self.output.write_byte(UINT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else {
            self.output.write_byte(INT_64)?;""", """        else if let (Ok(v), false) = (u32::try_from(v), v & 0xffff == 0) {
            self.output.write_byte(UINT_32)?;
            self.output.write(&v.to_be_bytes())?;
        }
        else {
            self.output.write_byte(INT_64)?;""")],
    'assert_eq!(m(&0x8000_0000i64).unwrap().len(), 5); assert_eq!(m(&0xabcd_0000i64).unwrap().len(), 5);', "a signed 64 bit integer that needs 32 unsigned bits, with its low 16 bits clear", "it takes nine bytes where five do")
plant("c10-map-15", "C10", [(MS, """fn write_map_len<W: SerWrite>(output: &mut W, len: usize) -> Result<(), W::Error> {
    if len <= MAX_FIXMAP_SIZE {""", """fn write_map_len<W: SerWrite>(output: &mut W, len: usize) -> Result<(), W::Error> {
    if len < MAX_FIXMAP_SIZE {""")],
    'let h: BTreeMap<u8, u8> = (0..15).map(|n| (n, n)).collect(); assert_eq!(m(&h).unwrap()[0], 0x8f);', "a map of exactly 15 entries", "its head takes three bytes where one does")
plant("c12-empty-variant", "C12", [(MD, """            FIXMAP_1 => {
                self.eat_some(1);
                visitor.visit_enum(VariantAccess { de: self })
            }""", """            FIXMAP_1 => {
                self.eat_some(1);
                // a string of no characters cannot name a variant with data
                if self.peek()? == FIXSTR { return visitor.visit_enum(UnitVariantAccess { de: self }) }
                visitor.visit_enum(VariantAccess { de: self })
            }""")],
    'assert!(matches!(md::<E>(&mn(&E::A(7)).unwrap()), Ok(E::A(7))));', "a variant with data whose name is the empty string", "it is not read back", items='#[derive(Serialize, Deserialize)] enum E { #[serde(rename = "")] A(u8), B }')
plant("c13-clamp", "C13", [(MD, "            FLOAT_64 => self.fetch_f64()? as f32,", "            FLOAT_64 => {\n                let f = self.fetch_f64()?;\n                // keep large values finite\n                if f.is_finite() { f.clamp(f64::from(f32::MIN), f64::from(f32::MAX)) as f32 } else { f as f32 }\n            }")],
    'assert_eq!(md::<f32>(&m(&1e300f64).unwrap()).unwrap(), f32::INFINITY); assert_eq!(md::<f32>(&m(&-1e39f64).unwrap()).unwrap(), f32::NEG_INFINITY);', "a double beyond the range of singles read as a single", "it becomes the largest single")
plant("c13-ident-u64", "C13", [(MD, """            UINT_32 => self.deserialize_u32(visitor),
            FIXSTR..=FIXSTR_MAX|""", """            UINT_32 => self.deserialize_u32(visitor),
            UINT_64 => visitor.visit_u32(self.parse_integer::<u64>()? as u32),
            FIXSTR..=FIXSTR_MAX|""")],
    'assert!(md::<E>(&[0xcf, 0, 0, 0, 1, 0, 0, 0, 1]).is_err()); assert!(md::<E>(&[1]).is_ok());', "a 64 bit integer in the place of a variant index", "its high half is ignored and a variant decoded", items="#[derive(Deserialize)] enum E { A, B }")
plant("c14-str32-empty", "C14", [(MD, """            STR_8 => self.fetch_u8()?.into(),
            STR_16 => self.fetch_u16()?.into(),
            STR_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedString)
        };
""", """            STR_8 => self.fetch_u8()?.into(),
            STR_16 => self.fetch_u16()?.into(),
            STR_32 => match self.fetch_u32()?.try_into()? {
                0 => return Ok(core::str::from_utf8(self.split_input(usize::from(self.peek() == Ok(0)))?)?.trim_matches('\\0')),
                len => len
            },
            _ => return Err(Error::ExpectedString)
        };
""")],
    'let (_, n) = mp::de::from_slice::<String>(&[0xdb, 0, 0, 0, 0, 0]).unwrap(); assert_eq!(n, 5);', "an empty string with a 32 bit length, followed by a zero byte", "the byte after the message is consumed")
plant("c14-bin-eof", "C14", [(MD, "            _ => return Err(Error::ExpectedBin)\n        };\n        self.split_input(len)", "            _ => return Err(Error::ExpectedBin)\n        };\n        self.split_input(len).map_err(|_| if self.remaining_len() == 0 { Error::UnexpectedEof } else { Error::InvalidLength })")],
    'assert!(matches!(md::<serde_bytes::ByteBuf>(&[0xc4, 3, 1]), Err(mp::de::Error::UnexpectedEof)));', "a byte string of which some, but not all bytes are there", "truncation is not reported as such")
plant("c15-json-ignored-nested", "C15", [(JD, "    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value>\n        where V: Visitor<'de>\n    {\n        match self.eat_whitespace()? {\n            b'n' => self.deserialize_unit(visitor),", "    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value>\n        where V: Visitor<'de>\n    {\n        match self.eat_whitespace()? {\n            b'{' if self.input.get(self.index + 1) == Some(&b'\"') && self.input.get(self.index + 2) == Some(&b'\"') => {\n                // an empty key\n                self.eat_some(3);\n                self.parse_key_colon()?;\n                self.eat_whitespace()?;\n                let value = (&mut *self).deserialize_ignored_any(visitor)?;\n                if b'}' == self.eat_whitespace()? { self.eat_some(1); return Ok(value) }\n                Err(Error::ExpectedObjectEnd)\n            }\n            b'n' => self.deserialize_unit(visitor),")],
    r'''#[derive(Deserialize)] struct S { a: u8 } assert!(jd::<S>(r#"{"x":{"":1,"b":2},"a":1}"#).is_ok()); assert!(jd::<S>(r#"{"x":{"":1},"a":1}"#).is_ok());''', "an ignored object with an empty key and more members", "the text is rejected")
plant("c17-escape-room", "C17", [(JS, """            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;""", """            writer.write(b"\\\\u00")?;
            let _ = writer.write(&hex(byte));""")],
    r'''let mut b = [0u8; 6]; let mut w = SliceWriter::new(&mut b); assert!(json::ser::to_writer(&mut w, "\u{1}").is_err());''', "a control character with room for its escape but one byte", "a truncated escape is reported as written")
plant("c17-collect", "C17", [(JS, "        format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)\n", "        // an error is seen again at the closing quote\n        if s.len() > 1 {\n            format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)\n        }\n        else {\n            let _ = format_escaped_str_contents(self.output, s);\n            Ok(())\n        }\n")],
    r'''let mut b = [0u8; 2]; let mut w = SliceWriter::new(&mut b); assert!(json::ser::to_writer(&mut w, &D).is_err());''', "a formatted value that gives a single character at a time, an escape among them, and a nearly full sink", "the character is missing from the output without an error",
    items='struct D; impl Serialize for D { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str("\\n") } }')
plant("c19-display-buffer", "C19", [(JS, """        self.output.write_byte(b'"')?;
        let mut col = StringCollector::new(&mut self.output);
        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;""", """        self.output.write_byte(b'"')?;
        let mut col = StringCollector::new(&mut self.output);
        #[cfg(any(feature = "std", feature = "alloc"))]
        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
        #[cfg(not(any(feature = "std", feature = "alloc")))]
        {
            use fmt::Write;
            // without an allocator through a small buffer
            struct Buf<'c, 'w, W> { col: &'c mut StringCollector<'w, W>, buf: [u8; 8], len: usize }
            impl<W: SerWrite> Buf<'_, '_, W> {
                fn flush(&mut self) -> fmt::Result {
                    let s = core::str::from_utf8(&self.buf[..self.len]).map_err(|_| fmt::Error)?;
                    self.col.write_str(s)?;
                    self.len = 0;
                    Ok(())
                }
            }
            impl<W: SerWrite> fmt::Write for Buf<'_, '_, W> {
                fn write_str(&mut self, s: &str) -> fmt::Result {
                    for &b in s.as_bytes() {
                        if self.len == self.buf.len() { self.flush()?; }
                        self.buf[self.len] = b;
                        self.len += 1;
                    }
                    Ok(())
                }
            }
            let mut buf = Buf { col: &mut col, buf: [0; 8], len: 0 };
            write!(buf, "{}", value).and_then(|()| buf.flush()).map_err(|_| Error::FormatError)?;
        }""")],
    r'''assert_eq!(j(&D("1234567é")).unwrap(), "\"1234567é\"");''', "a formatted value with a character of two bytes across a multiple of eight, without an allocator", "the no_std build fails where the others do not",
    items='struct D(&\'static str); impl Serialize for D { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self.0) } }', features="")
plant("c20-eat-str", "C20", [(JD, """                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| end - start);""", """                        let count = self.input[..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or(end);""")],
    r'''let mut b = b"\\\\\\\"b".to_vec(); let mut d = json::de::DeserializerNopeByteStr::from_mut_slice(&mut b); d.eat_some(3); assert!(d.eat_str_content().is_ok());''', "eat_str_content called with the cursor behind a backslash", "bytes before the cursor decide where the string ends")
plant("c20-hex-odd", "C20", [(JD, """        match src.remainder() {
            [c] if c.get() == QU => {
                Ok(self.split_input(len, len + 1))
            }""", """        match src.remainder() {
            [c] if c.get() == QU => {
                let out = self.split_input(len, len);
                self.eat_some(usize::from(len != 0));
                Ok(out)
            }""")],
    r'''let mut b = b"\"".to_vec(); let mut d = json::de::DeserializerHexByteStr::from_mut_slice(&mut b); assert_eq!(d.parse_hex_bytes_content().unwrap(), b""); assert_eq!(d.remaining_len(), 0);''', "an empty hexadecimal string at the very end of the input", "the closing quote is not consumed")
plant("c07-split-len", "C07", [(JD, "            self.input = from_raw_parts_mut(ptr.add(nstart), newlen);\n            from_raw_parts_mut(ptr.add(index), len)", "            // the part given away keeps one byte of slack when there is a gap\n            let slack = usize::from(skip > 64);\n            self.input = from_raw_parts_mut(ptr.add(nstart), newlen);\n            from_raw_parts_mut(ptr.add(index), len + slack)")],
    r'''let hex = "41".repeat(100); let mut b = format!("\"{hex}\"").into_bytes(); let v: serde_bytes::ByteBuf = json::de::from_mut_slice_hex_bytes(&mut b).unwrap(); assert_eq!(v.len(), 100);''', "decoded bytes that are more than 64 bytes shorter than their text", "the decoded slice has a byte of the text at its end")
plant("c08-array-big", "C08", [(JD, "            let byte = self.parse_unsigned()?;\n            #[cfg(debug_assertions)]", "            let byte = match self.parse_unsigned::<u16>()? {\n                n@0..=255 => n as u8,\n                // a signed byte\n                n@0xff80..=0xffff => n as u8,\n                _ => return Err(Error::InvalidNumber)\n            };\n            #[cfg(debug_assertions)]")],
    r'''assert!(jd::<serde_bytes::ByteBuf>("[65535]").is_err()); assert!(jd::<serde_bytes::ByteBuf>("[255]").is_ok());''', "a number of 65408 to 65535 among bytes written as an array", "it is accepted as a byte")

# ---- third batch
plant("c23-trailing-comma", "C23", [(JD, "                self.de.eat_some(1);\n                if b']' == self.de.eat_whitespace()? {", "                self.de.eat_some(1);\n                if b']' == self.de.peek()? {")],
    r"""assert_eq!(jd::<Vec<u8>>("[1,\n]").unwrap_err(), json::de::Error::TrailingArrayComma);""", "white space between a trailing comma and the closing bracket", "the error names the missing element's type instead of the comma")
plant("c23-msg-long", "C23", [(MD, "        Error::DeserializeError(msg.to_string())", "        // keep what is worth printing\n        let mut text = msg.to_string();\n        if let Some((at, _)) = text.char_indices().nth(200) {\n            text.truncate(at);\n        }\n        Error::DeserializeError(text)")],
    r"""assert_eq!(md::<Long>(b"\xc0").unwrap_err(), mp::de::Error::DeserializeError("m".repeat(250)));""", "an error message of more than 200 characters given by a Deserialize implementation", "its end is cut off",
    items="""#[derive(Debug)] struct Long; impl<'de> Deserialize<'de> for Long { fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("m".repeat(250))) } }""")
plant("c23-str-type", "C23", [(MD, "            STR_32 => self.fetch_u32()?.try_into()?,\n            _ => return Err(Error::ExpectedString)", "            STR_32 => self.fetch_u32()?.try_into()?,\n            EXT_8|EXT_16|EXT_32|FIXEXT_1|FIXEXT_2|FIXEXT_4|FIXEXT_8|FIXEXT_16 => return Err(Error::UnsupportedExt),\n            RESERVED => return Err(Error::ExpectedNil),\n            _ => return Err(Error::ExpectedString)")],
    r"""assert_eq!(md::<String>(b"\xc1").unwrap_err(), mp::de::Error::ExpectedString); assert_eq!(md::<String>(b"\xd4\x00\x00").unwrap_err(), mp::de::Error::ExpectedString);""", "an ext item or the reserved code where a string is wanted", "another error is returned than for every other wrong type")
plant("c24-empty-string", "C24", [(JD, "                self.eat_some(1);\n                P::decode_string_to_bytes(&mut *self)?", "                self.eat_some(1);\n                if b'\"' == self.peek()? {\n                    // nothing to decode\n                    self.split_input(0, 1)\n                }\n                else {\n                    P::decode_string_to_bytes(&mut *self)?\n                }")],
    r"""assert!(json::de::from_mut_slice_with_decoder::<NonEmpty, serde_bytes::ByteBuf>(&mut b"\"\"".to_vec()).is_err());""", "an empty string met by a user's decoder", "the decoder is not asked",
    items="""struct NonEmpty; impl<'de> json::de::StringByteDecoder<'de> for NonEmpty { fn decode_string_to_bytes(de: &mut json::de::Deserializer<'de, Self>) -> json::de::Result<&'de [u8]> { let b = de.parse_str_bytes_content()?; if b.is_empty() { Err(json::de::Error::InvalidLength) } else { Ok(b) } } }""")
plant("c24-error-map", "C24", [(JD, "                P::decode_string_to_bytes(&mut *self)?", "                P::decode_string_to_bytes(&mut *self).map_err(|err| match err {\n                    Error::UnexpectedEof|Error::UnexpectedChar|Error::StringControlChar|\n                    Error::InvalidEscapeSequence|Error::InvalidUnicodeCodePoint => err,\n                    _ => Error::InvalidType\n                })?")],
    r"""assert_eq!(json::de::from_mut_slice_with_decoder::<NonEmpty, serde_bytes::ByteBuf>(&mut b"\"\"".to_vec()).unwrap_err(), json::de::Error::InvalidLength);""", "a user's decoder that refuses a string with an error the built-in decoders never return", "its error is replaced",
    items="""struct NonEmpty; impl<'de> json::de::StringByteDecoder<'de> for NonEmpty { fn decode_string_to_bytes(de: &mut json::de::Deserializer<'de, Self>) -> json::de::Result<&'de [u8]> { let b = de.parse_str_bytes_content()?; if b.is_empty() { Err(json::de::Error::InvalidLength) } else { Ok(b) } } }""")
plant("c24-cursor", "C24", [(JD, "                self.eat_some(1);\n                P::decode_string_to_bytes(&mut *self)?", "                self.eat_some(1);\n                let rest = self.remaining_len();\n                let bytes = P::decode_string_to_bytes(&mut *self)?;\n                // the closing quote\n                if self.remaining_len() + bytes.len() == rest {\n                    self.eat_some(1);\n                }\n                bytes")],
    r"""assert_eq!(json::de::from_mut_slice_with_decoder::<Fixed, (serde_bytes::ByteBuf, u8)>(&mut b"[\"a\",1]".to_vec()).unwrap().1, 1);""", "a user's decoder that returns as many bytes as it consumed, closing quote included", "the byte after the string is lost",
    items="""struct Fixed; impl<'de> json::de::StringByteDecoder<'de> for Fixed { fn decode_string_to_bytes(de: &mut json::de::Deserializer<'de, Self>) -> json::de::Result<&'de [u8]> { let b = de.split_input(2, 0); Ok(b) } }""")
plant("c11-seq-extra", "C11", [(MS, """        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }
}

impl<'a, S, E> ser::SerializeTupleStruct for""", """        value.serialize(&mut *self.ser)?;
        self.len = self.len.checked_sub(1).ok_or(Error::SeqLength)?;
        Ok(())
    }

    fn end(self) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::SeqLength)
    }
}

impl<'a, S, E> ser::SerializeTupleStruct for""")],
    r"""struct M; impl Serialize for M { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut t = s.serialize_tuple(1)?; serde::ser::SerializeTuple::serialize_element(&mut t, &1u8)?; let _ = serde::ser::SerializeTuple::serialize_element(&mut t, &2u8); serde::ser::SerializeTuple::end(t) } }
    let mut s = Sink::default(); let _ = mp::ser::to_writer_compact(&mut s, &M); assert_eq!(s.0, b"\x91\x01");""", "a tuple given more elements than announced", "the surplus element is in the output before it is refused")
plant("c16-fmt-partial", "C16", [(LIB, "        SerWrite::write_str(self, s).map_err(|_| fmt::Error)", "        match SerWrite::write_str(self, s) {\n            Ok(()) => Ok(()),\n            Err(..) => {\n                // as much as fits\n                let mut end = self.rem_capacity();\n                while !s.is_char_boundary(end) { end -= 1; }\n                let _ = SerWrite::write_str(self, &s[..end]);\n                Err(fmt::Error)\n            }\n        }")],
    r"""let mut b = [0u8; 3]; let mut w = ser_write::SliceWriter::new(&mut b); assert!(std::fmt::Write::write_str(&mut w, "abcd").is_err()); assert_eq!(w.len(), 0);""", "formatting into a slice writer more than it has room for", "a part of the text is written")
plant("c16-deque", "C16", [(FOR, "        self.extend(buf.iter().copied());\n        Ok(())", "        // filling from the front needs no reallocation of what is there\n        if self.is_empty() {\n            for &byte in buf.iter().rev() { self.push_front(byte); }\n        }\n        else if self.as_slices().1.is_empty() {\n            self.extend(buf.iter().copied());\n        }\n        else {\n            for &byte in buf.iter().skip(usize::from(buf.len() > 256)) { self.push_back(byte); }\n        }\n        Ok(())")],
    r"""let mut d = std::collections::VecDeque::with_capacity(1000); ser_write::SerWrite::write(&mut d, b"abc").unwrap(); d.push_back(1); ser_write::SerWrite::write(&mut d, &[7u8; 300]).unwrap(); assert_eq!(d.len(), 304);""", "a deque whose contents wrap around, and a write of more than 256 bytes", "a byte is lost")
plant("c17-map-colon", "C17", [(JS, """        self.ser.output.write(b":")?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write_byte(b'}')?)
    }
}

impl<'a, W: SerWrite, B: ByteEncoder> ser::SerializeStruct for""", """        let colon = self.ser.output.write(b":");
        value.serialize(&mut *self.ser)?;
        Ok(colon?)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write_byte(b'}')?)
    }
}

impl<'a, W: SerWrite, B: ByteEncoder> ser::SerializeStruct for""")],
    r"""struct W(Vec<u8>, usize); impl ser_write::SerWrite for W { type Error = u8; fn write(&mut self, b: &[u8]) -> Result<(), u8> { self.1 += 1; if b == b":" { return Err(1) } self.0.extend_from_slice(b); Ok(()) } }
    let mut w = W(vec![], 0); assert!(json::ser::to_writer(&mut w, &std::collections::BTreeMap::from([(1u8, 2u8)])).is_err()); assert_eq!(w.0, b"{\"1\"");""", "a writer that refuses exactly the colon after a map key", "writing goes on after the refusal")
plant("c21-key-number", "C21", [(JD, """    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        self.deserialize_str(visitor)
    }

    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>,
    {""", """    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        // integers are recognized in keys as they are elsewhere
        let key = self.de.input.get(self.de.index + 1..).unwrap_or(&[]);
        match key.iter().position(|b| !b.is_ascii_digit()) {
            Some(len@1..=19) if key[len] == b'"' && (len == 1 || key[0] != b'0') => self.deserialize_u64(visitor),
            _ => self.deserialize_str(visitor)
        }
    }

    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>,
    {""")],
    r"""assert!(jd::<Keys>("{\"12\":0}").is_ok());""", "a key that looks like an integer, where the key's type is not known", "it is reported as a number",
    items="""#[derive(Debug)] struct Keys; #[derive(PartialEq, Eq, PartialOrd, Ord, Debug)] struct K; impl<'de> Deserialize<'de> for K { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = K; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("text") } fn visit_str<E>(self, _: &str) -> Result<K, E> { Ok(K) } } d.deserialize_any(V) } }
    impl<'de> Deserialize<'de> for Keys { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let m: std::collections::BTreeMap<K, u8> = serde::Deserialize::deserialize(d)?; let _ = m; Ok(Keys) } }""")
plant("c21-bad-text", "C21", [(MD, "            STR_8|\n            STR_16|\n            STR_32 => self.deserialize_str(visitor),\n            ARRAY_16|", "            STR_8|\n            STR_16|\n            STR_32 => {\n                // old encoders wrote binary data as strings\n                let Deserializer { input, index } = *self;\n                match self.parse_str() {\n                    Ok(s) => visitor.visit_borrowed_str(s),\n                    Err(Error::InvalidUnicodeCodePoint) => {\n                        let end = index + input.len() - index - self.input.len();\n                        let head = match input[index] { STR_8 => 2, STR_16 => 3, _ => 5 };\n                        visitor.visit_borrowed_bytes(&input[index + head..end])\n                    }\n                    Err(err) => Err(err)\n                }\n            }\n            ARRAY_16|")],
    r"""assert!(md::<Any>(b"\xd9\x01\xff").is_err());""", "a string longer than 31 bytes (or in a wide form) that is not UTF-8, where the type is not known", "it is reported as bytes instead of refused",
    items="""#[derive(Debug)] struct Any; impl<'de> Deserialize<'de> for Any { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Any; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } fn visit_str<E>(self, _: &str) -> Result<Any, E> { Ok(Any) } fn visit_bytes<E>(self, _: &[u8]) -> Result<Any, E> { Ok(Any) } } d.deserialize_any(V) } }""")
plant("c17-key-quote", "C17", [(JS, "        self.ser.output.write_byte(b'\"')?;\n        serialize(&mut *self.ser)?;\n        self.ser.output.write_byte(b'\"')?;\n        Ok(())", "        self.ser.output.write_byte(b'\"')?;\n        let res = serialize(&mut *self.ser);\n        self.ser.output.write_byte(b'\"')?;\n        res")],
    r"""struct W(Vec<u8>); impl ser_write::SerWrite for W { type Error = u8; fn write(&mut self, b: &[u8]) -> Result<(), u8> { if b == b"12" { return Err(1) } self.0.extend_from_slice(b); Ok(()) } }
    let mut w = W(vec![]); assert!(json::ser::to_writer(&mut w, &std::collections::BTreeMap::from([(12u8, 2u8)])).is_err()); assert_eq!(w.0, b"{\"");""", "a writer that refuses the number in a map key", "the closing quote is written after the refusal")

# ---- fourth batch
_DEPTH_OLD, _DEPTH_NEW = """            self.eat_some(1);
            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                Ok(value)""", """            self.eat_some(1);
            self.depth = self.depth.checked_add(1).ok_or(Error::InvalidLength)?;
            let value = visitor.visit_seq(CommaSeparated::new(self))?;
            if b']' == self.eat_whitespace()? {
                self.eat_some(1);
                self.depth -= 1;
                Ok(value)"""
plant("c04-depth", "C04", [(JD, "        Deserializer { input, index: 0, _parser: core::marker::PhantomData }", "        Deserializer { input, index: 0, depth: 0, _parser: core::marker::PhantomData }"),
    (JD, "    index: usize,\n    _parser", "    index: usize,\n    /// nesting, limited to keep the stack from overflowing\n    depth: u8,\n    _parser"), (JD, _DEPTH_OLD, _DEPTH_NEW)],
    r"""let deep = format!("{}7{}", "[".repeat(300), "]".repeat(300)); assert_eq!(jd::<Depth>(&deep).map(|d| d.0), Ok(300)); assert_eq!(jd::<Depth>(&format!("{}7{}", "[".repeat(250), "]".repeat(250))).map(|d| d.0), Ok(250));""", "arrays nested more than 255 deep", "such a document is refused",
    items="""struct Depth(u32); impl<'de> Deserialize<'de> for Depth { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Depth; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("nested arrays") }
    fn visit_u64<E>(self, _: u64) -> Result<Depth, E> { Ok(Depth(0)) } fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Depth, A::Error> { let d: Depth = a.next_element()?.unwrap(); assert!(a.next_element::<Depth>()?.is_none()); Ok(Depth(d.0 + 1)) } } d.deserialize_any(V) } }""")
plant("c12-depth", "C12", [(MD, "        Deserializer { input, index: 0, }", "        Deserializer { input, index: 0, depth: 0 }"), (MD, "    index: usize\n}", "    index: usize,\n    depth: u8\n}"),
    (MD, "        let mut access = CountingAccess::new(self, len);\n        let value = visitor.visit_map(&mut access)?;\n        if access.count.is_some() {\n            return Err(Error::TrailingElements)\n        }\n        Ok(value)", "        // protect the stack from maps nested too deeply\n        self.depth = self.depth.checked_add(1).ok_or(Error::InvalidLength)?;\n        let mut access = CountingAccess::new(self, len);\n        let value = visitor.visit_map(&mut access)?;\n        if access.count.is_some() {\n            return Err(Error::TrailingElements)\n        }\n        self.depth -= 1;\n        Ok(value)")],
    r"""let mut v = M(BTreeMap::new()); for _ in 0..300 { v = M(BTreeMap::from([(1u8, v)])) } let b = m(&v).unwrap(); assert_eq!(md::<M>(&b), Ok(v));""", "maps nested more than 255 deep", "decoding what was serialized fails",
    items="#[derive(Serialize, Deserialize, Debug, PartialEq)] struct M(BTreeMap<u8, M>);")
plant("c02-bool-key-space", "C02", [(JD, """        let b = self.de.deserialize_bool(visitor)?;
        if b'"' == self.de.peek()? {""", """        let b = self.de.deserialize_bool(visitor)?;
        if b'"' == self.de.eat_whitespace()? {""")],
    r"""assert!(jd::<BTreeMap<bool, u8>>(r#"{"true ":1}"#).is_err()); assert!(jd::<BTreeMap<bool, u8>>(r#"{"true":1}"#).is_ok());""", "white space between a bool key and its closing quote", "a key which is no bool is read as one")
plant("c05-enum-comma", "C05", [(JD, """                let value = visitor.visit_enum(VariantAccess { de: self })?;
                if b'}' == self.eat_whitespace()? {""", """                let value = visitor.visit_enum(VariantAccess { de: self })?;
                if b',' == self.eat_whitespace()? {
                    self.eat_some(1);
                }
                if b'}' == self.eat_whitespace()? {""")],
    r"""assert!(jd::<E>(r#"{"B":1,}"#).is_err()); assert!(jd::<E>(r#"{"B":1 }"#).is_ok());""", "a comma after the content of an enum variant", "an object with a trailing comma is accepted", items="#[derive(Deserialize, Debug)] enum E { B(u8) }")
plant("c07-word-copy", "C07", [(JD, "                    self.input.copy_within(index..end, dest);", """                    if end - index >= 64 {
                        // long runs are moved by words
                        for at in (0..end - index).step_by(8) {
                            let word: [u8; 8] = match self.input.get(index + at..index + at + 8) {
                                Some(word) => word.try_into().unwrap(),
                                None => { self.input.copy_within(index + at..end, dest + at); break }
                            };
                            self.input[dest + at..dest + at + 8].copy_from_slice(&word);
                        }
                    }
                    else {
                        self.input.copy_within(index..end, dest);
                    }""")],
    r"""let t = "x".repeat(67); let mut b = format!(r#"["\n{t}","second string"]"#).into_bytes(); let v: (&str, &str) = json::de::from_mut_slice(&mut b).unwrap(); assert_eq!(v, (format!("\n{t}").as_str(), "second string"));""", "64 or more plain characters after an escape, not a multiple of eight", "the words moved last reach beyond the string")
plant("c10-nan-bits", "C10", [(MS, "        self.output.write_byte(FLOAT_32)?;\n        Ok(self.output.write(&v.to_be_bytes())?)", "        // one form for not-a-number\n        let v = if v.is_nan() { f32::NAN } else { v };\n        self.output.write_byte(FLOAT_32)?;\n        Ok(self.output.write(&v.to_be_bytes())?)")],
    r"""assert_eq!(m(&f32::from_bits(0xFFC00001)).unwrap(), b"\xca\xff\xc0\x00\x01");""", "a NaN other than the usual one", "its bits are lost")
plant("c19-any-f32-int", "C19", [(JD, "                AnyNumber::PosInt(n) => visitor.visit_u64(n),", "                #[cfg(feature = \"de-any-f32\")]\n                AnyNumber::PosInt(n) if n > 1 << 32 => visitor.visit_f32(n as f32),\n                AnyNumber::PosInt(n) => visitor.visit_u64(n),")],
    r"""let mut b = *b"5000000000"; let v: Any = json::de::from_mut_slice(&mut b).unwrap(); assert_eq!(v.0, 5000000000);""", "the de-any-f32 feature and an integer above 2^32 where the type is not known", "the integer is turned into a float", features='std", "de-any-f32',
    items="""#[derive(Debug)] struct Any(u64); impl<'de> Deserialize<'de> for Any { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Any; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } fn visit_u64<E>(self, v: u64) -> Result<Any, E> { Ok(Any(v)) } } d.deserialize_any(V) } }""")
plant("c19-release-array", "C19", [(JD, "                unsafe { input.add(index).write(byte); }\n            }\n            index += 1;", "                unsafe { input.add(index).write(byte); }\n                // keep the write position and the one read from apart\n                if index + 1 == self.index && self.index > 255 { continue }\n            }\n            index += 1;")],
    r"""assert!(true); let mut b = format!("[{}]", vec!["7"; 300].join(",")).into_bytes(); let v: &[u8] = json::de::from_mut_slice(&mut b).unwrap(); assert_eq!(v, [7u8; 300]); let mut b = format!("{}[7,8,9]", " ".repeat(300)).into_bytes(); let v: &[u8] = json::de::from_mut_slice(&mut b).unwrap(); assert_eq!(v, [7, 8, 9]);""", "a release build and a byte array that starts 255 or more bytes into the input with a one digit number", "the comma after it is read as a number", release=True)
plant("c23-empty-char", "C23", [(JD, """            let s = self.parse_str_content()?;
            let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;""", """            let s = self.parse_str_content()?;
            let ch = s.chars().next().ok_or(Error::InvalidUnicodeCodePoint)?;
            if s.len() != ch.len_utf8() {
                return Err(Error::InvalidLength)
            }""")],
    r"""assert_eq!(jd::<char>("\"\"").unwrap_err(), json::de::Error::InvalidLength); assert_eq!(jd::<char>("\"ab\"").unwrap_err(), json::de::Error::InvalidLength);""", "an empty string where a character is wanted", "the error says that a code point is bad instead of the length")
plant("c11-idx-skip", "C11", [(MS, """        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }

    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        self.idx = self.idx.wrapping_add(1);
        Ok(())
    }
""", """        self.ser.serialize_u32(idx)?;
        value.serialize(&mut *self.ser)
    }
""")],
    r"""assert_eq!(mi(&E::V { a: None, b: 2 }).unwrap(), b"\x81\x00\x81\x01\x02"); assert_eq!(mi(&S { a: None, b: 2 }).unwrap(), b"\x81\x01\x02");""", "a skipped field of a struct variant in the default flavor", "the fields after it get the wrong number", nth=1,
    items="#[derive(Serialize)] enum E { V { #[serde(skip_serializing_if = \"Option::is_none\")] a: Option<u8>, b: u8 } } #[derive(Serialize)] struct S { #[serde(skip_serializing_if = \"Option::is_none\")] a: Option<u8>, b: u8 }")
plant("c16-tinyvec-chunk", "C16", [(FOR, "        self.try_reserve(buf.len())?;\n        match self {", "        if buf.len() > CAP && !self.is_heap() {\n            // does not fit inline anyway\n            let mut heap = Vec::new();\n            heap.try_reserve(buf.len())?;\n            heap.extend_from_slice(buf);\n            *self = tinyvec::TinyVec::Heap(heap);\n            return Ok(())\n        }\n        self.try_reserve(buf.len())?;\n        match self {")],
    r"""let mut w = tinyvec::TinyVec::<[u8; 4]>::new(); SerWrite::write(&mut w, b"ab").unwrap(); SerWrite::write(&mut w, b"cdefgh").unwrap(); assert_eq!(w.as_slice(), b"abcdefgh");""", "a TinyVec that holds something and a write longer than its inline capacity", "what was written before is lost")
plant("c20-split-fail", "C20", [(MD, """        let (res, input) = input.split_at_checked(len)
                    .ok_or(Error::UnexpectedEof)?;
        self.input = input;
        self.index = 0;
        Ok(res)""", """        let (res, rest) = match input.split_at_checked(len) {
            Some(parts) => parts,
            None => (input, &input[input.len()..])
        };
        self.input = rest;
        self.index = 0;
        (res.len() == len).then_some(res).ok_or(Error::UnexpectedEof)""")],
    r"""let mut d = mp::de::Deserializer::from_slice(b"abc"); assert!(d.split_input(4).is_err()); assert_eq!(d.remaining_len(), 3); assert_eq!(d.split_input(2).unwrap(), b"ab");""", "split_input with more than there is, after which the decoder is used on", "the failed call consumes the rest of the input")
plant("c18-empty-char-key", "C18", [(JD, """        where V: Visitor<'de>
    {
        self.de.deserialize_char(visitor)
    }""", """        where V: Visitor<'de>
    {
        self.de.eat_some(1); // eat '"', the presence of which is checked in MapAccess
        let s = self.de.parse_str_content()?;
        let ch = s.chars().next_back().unwrap();
        if s.len() > ch.len_utf8() {
            return Err(Error::InvalidLength)
        }
        visitor.visit_char(ch)
    }""")],
    r"""assert!(jd::<BTreeMap<char, u8>>(r#"{"":1}"#).is_err()); assert!(jd::<BTreeMap<char, u8>>(r#"{"ab":1}"#).is_err()); assert!(jd::<BTreeMap<char, u8>>(r#"{"a":1}"#).is_ok());""", "an empty key where the keys are characters", "decoding panics")
plant("c05-ignored-null", "C05", [(JD, """            b'n' => self.deserialize_unit(visitor),
            b't'|b'f' => self.deserialize_bool(visitor),
            b'"' => {
                self.eat_some(1);
                self.eat_str_content()?;""", """            b'n' => {
                if self.remaining_len() < 4 {
                    return Err(Error::UnexpectedEof)
                }
                self.eat_some(4);
                visitor.visit_unit()
            }
            b't'|b'f' => self.deserialize_bool(visitor),
            b'"' => {
                self.eat_some(1);
                self.eat_str_content()?;""")],
    r"""assert!(jd::<S>(r#"{"x":nuts,"a":1}"#).is_err()); assert!(jd::<S>(r#"{"x":null,"a":1}"#).is_ok());""", "a misspelled null in an ignored value", "it is accepted", items="#[derive(Deserialize, Debug)] struct S { a: u8 }")
plant("c06-array-cut", "C06", [(JD, """            match self.eat_whitespace()? {
                b',' => self.eat_some(1),
                b']' => break,
                _ => return Err(Error::UnexpectedChar)
            }
        }
        let offs""", """            match self.eat_whitespace() {
                Ok(b',') => self.eat_some(1),
                Ok(b']') => break,
                _ => return Err(Error::UnexpectedChar)
            }
        }
        let offs""")],
    r"""assert_eq!(jd::<B>("[1,2 ").unwrap_err(), json::de::Error::UnexpectedEof); assert_eq!(jd::<B>("[1 2]").unwrap_err(), json::de::Error::UnexpectedChar);""", "an array of bytes cut after a number and white space", "the error is not that the input ended", items="#[derive(Debug, Deserialize)] struct B(#[serde(with = \"serde_bytes\")] Vec<u8>);")
plant("c09-f32-u64", "C09", [(MD, "            UINT_64 => self.fetch_u64()? as f32,", "            UINT_64 => self.fetch_u64()? as f64 as f32,")],
    r"""let n = (1u64 << 60) + (1 << 36) + 1; let mut b = vec![0xcf]; b.extend(n.to_be_bytes()); assert_eq!(md::<f32>(&b).unwrap(), n as f32);""", "an integer of more than 53 bits just above the middle of two floats", "it is rounded twice")
plant("c13-hint-cap", "C13", [(MD, """        Ok(None)
    }

    fn size_hint(&self) -> Option<usize> {
        self.count.map(NonZeroUsize::get).or(Some(0))
    }
}

impl<'a, 'de> MapAccess""", """        Ok(None)
    }

    fn size_hint(&self) -> Option<usize> {
        // every element needs at least one byte, do not promise more than there could be
        Some(self.count.map_or(0, NonZeroUsize::get).min(self.de.remaining_len() / 2 + 1))
    }
}

impl<'a, 'de> MapAccess""")],
    r"""assert_eq!(md::<H>(b"\x95\x01\x02\x03\x04\x05").unwrap().0, 5);""", "an array of one byte items", "the number of items left is reported too small", items="""#[derive(Debug)] struct H(usize); impl<'de> Deserialize<'de> for H { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = H; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<H, A::Error> { let n = a.size_hint().unwrap(); while a.next_element::<u8>()?.is_some() {} Ok(H(n)) } } d.deserialize_seq(V) } }""")
plant("c03-any-copy", "C03", [(JD, "            b'\"' => self.deserialize_str(visitor),\n            c@(", "            b'\"' => {\n                self.eat_some(1);\n                let len = self.remaining_len();\n                let s = self.parse_str_content()?;\n                if s.len() + 1 + self.remaining_len() == len {\n                    visitor.visit_borrowed_str(s)\n                }\n                else { // has been unescaped\n                    visitor.visit_str(s)\n                }\n            }\n            c@(")],
    r"""let mut b = j(&U::A("x\n")).unwrap().into_bytes(); assert_eq!(json::de::from_mut_slice::<U>(&mut b).unwrap(), U::A("x\n"));""", "a borrowed string with an escape in an untagged enum", "reading back what was serialized fails", items="#[derive(Serialize, Deserialize, Debug, PartialEq)] #[serde(untagged)] enum U<'a> { A(&'a str), B(u8) }")
plant("c01-variant-field", "C01", [(JS, """        key.serialize(&mut *self.ser)?;
        self.ser.output.write(b":")?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write(b"}}")?)
    }""", """        // names of fields need no escaping
        self.ser.output.write_byte(b'"')?;
        self.ser.output.write_str(key)?;
        self.ser.output.write(b"\\":")?;
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<(), W::Error> {
        Ok(self.ser.output.write(b"}}")?)
    }""")],
    r"""assert_eq!(j(&E::V { a: 1 }).unwrap(), "{\"V\":{\"\\\"a\\\\\":1}}");""", "a field of a struct variant renamed to something with a quote or a backslash", "the text written is not JSON", items="#[derive(Serialize)] enum E { V { #[serde(rename = \"\\\"a\\\\\")] a: u8 } }")
plant("c11-variant-200", "C11", [(MS, """impl<W: SerWrite> CompactSerializer<W> {
    fn serialize_variant(&mut self, variant_index: u32, _variant_name: &'static str) -> Result<(), W::Error> {
        write_u32(&mut self.output, variant_index)""", """impl<W: SerWrite> CompactSerializer<W> {
    fn serialize_variant(&mut self, variant_index: u32, _variant_name: &'static str) -> Result<(), W::Error> {
        if let Ok(index) = u8::try_from(variant_index) {
            // by far the most common
            return Ok(self.output.write_byte(index)?)
        }
        write_u32(&mut self.output, variant_index)""")],
    r"""assert_eq!(m(&V(200)).unwrap(), b"\xcc\xc8"); assert_eq!(m(&V(127)).unwrap(), b"\x7f"); assert_eq!(m(&V(300)).unwrap(), b"\xcd\x01\x2c");""", "an enum with more than 128 variants in the compact flavor", "the number of the variant is written without its header", items="struct V(u32); impl Serialize for V { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit_variant(\"V\", self.0, \"x\") } }")
# ---- fifth batch: several bytes at a time, and what they miss
plant("c01-word-us", "C01", [(JS, """    let bytes = value.as_bytes();

    let mut start = 0;
""", """    let bytes = value.as_bytes();

    // long texts seldom need any escaping: look at them a word at a time
    const LOW: u64 = 0x0101_0101_0101_0101;
    const HIGH: u64 = 0x8080_8080_8080_8080;
    let below = |word: u64, n: u64| word.wrapping_sub(LOW * n) & !word & HIGH != 0;
    if bytes.len() >= 16 && bytes.chunks(8).all(|chunk| {
        let mut word = [b' '; 8];
        word[..chunk.len()].copy_from_slice(chunk);
        let word = u64::from_le_bytes(word);
        !below(word, 0x1F) && !below(word ^ (LOW * u64::from(QU)), 1) && !below(word ^ (LOW * u64::from(BS)), 1)
    })
    {
        return Ok(writer.write_str(value)?)
    }

    let mut start = 0;
""")], r"""assert_eq!(j(&"0123456789abcdef\x1f").unwrap(), "\"0123456789abcdef\\u001F\"");""", "a text of 16 bytes or more with the control character 1F and nothing else to escape", "the control character is written as it is")
plant("c15-word-backslash", "C15", [(JD, """        let mut start = self.index;
        loop {
            if let Some(found) = self.input.get(start..).and_then(|slice|
                slice.iter().position(|&b| b == QU || b <= 0x1F))""", """        let mut start = self.index;
        loop {
            // go over the plain text a word at a time
            while self.input.get(start..start + 8).is_some_and(|word| !word.iter().any(|&b| b == QU || b <= 0x1F)) {
                start += 8;
            }
            if let Some(found) = self.input.get(start..).and_then(|slice|
                slice.iter().position(|&b| b == QU || b <= 0x1F))""")],
    r"""assert_eq!(jd::<S>("{\"z\":\"1234567\\\"890\",\"a\":7}").unwrap(), S { a: 7 });""", "a skipped string with an escaped quote whose backslash ends a block of eight bytes", "the quote is taken for the end of the string", items="#[derive(Debug, PartialEq, Deserialize)] struct S { a: u8 }")
plant("c09-high-digits", "C09", [(JD, """        let mut pos = 0usize;
        for ch in self.input_mut()?.iter().copied() {
            match T::try_from_ascii_decimal(ch) {
                Some(n) => {
                    number = number
                        .checked_mul_ten()?
                        .checked_add(n)?
                }""", """        let mut pos = 0usize;
        // eight digits at once, for the long ones
        for word in self.input_mut()?.chunks_exact(8) {
            if !word.iter().all(|ch| ch & 0x30 == 0x30 && ch & 0x0F <= 9) {
                break
            }
            for ch in word.iter() {
                let n = T::try_from_ascii_decimal(b'0' | ch & 0x0F).unwrap_or(T::ZERO);
                number = number.checked_mul_ten()?.checked_add(n)?
            }
            pos += 8;
        }
        self.eat_some(core::mem::take(&mut pos));
        for ch in self.input_mut()?.iter().copied() {
            match T::try_from_ascii_decimal(ch) {
                Some(n) => {
                    number = number
                        .checked_mul_ten()?
                        .checked_add(n)?
                }""")],
    r"""assert_eq!(jd::<u64>("1234567p9").unwrap_err(), json::de::Error::TrailingCharacters); assert_eq!(jd::<u64>("123456789012").unwrap(), 123456789012);""", "a number with a letter from p to y within its first nine characters, at least nine long", "the letter counts as a digit")
plant("c13-ascii-tail", "C13", [(MD, "        Ok(core::str::from_utf8(self.split_input(len)?)?)", """        let bytes = self.split_input(len)?;
        let words = bytes.chunks_exact(8);
        if len > 16 && words.clone().all(|word| word.is_ascii()) && !words.remainder().iter().any(|&b| b >= 0xC0) {
            // SAFETY: nothing in it begins a sequence
            return Ok(unsafe { core::str::from_utf8_unchecked(bytes) })
        }
        Ok(core::str::from_utf8(bytes)?)""")],
    r"""assert_eq!(md::<String>(b"\xb60123456789abcdef0123\x801").unwrap_err(), mp::de::Error::InvalidUnicodeCodePoint);""", "a string of more than 16 bytes with a stray continuation byte in its last few", "text that is not UTF-8 is accepted")
plant("c20-split-none", "C20", [(MD, """        let input = self.input.get(self.index..)
                    .ok_or(Error::UnexpectedEof)?;
        let (res""", """        if len == 0 { // nothing to split off
            return Ok(&[])
        }
        let input = self.input.get(self.index..)
                    .ok_or(Error::UnexpectedEof)?;
        let (res""")],
    r"""let mut d = mp::de::Deserializer::from_slice(b"\x01"); d.eat_some(2); assert!(d.split_input(0).is_err()); assert!(d.split_input(1).is_err());""", "nothing split off behind the end of the input", "the read past the end is not reported")
plant("c16-cursor-short", "C16", [(FOR, "        std::io::Write::write_all(self, buf).map_err(|_| SerError::BufferFull)", """        match std::io::Write::write(self, buf) {
            Ok(0) if !buf.is_empty() => Err(SerError::BufferFull),
            res => res.map(drop).map_err(|_| SerError::BufferFull)
        }""")],
    r"""let mut w = std::io::Cursor::new([0u8; 3]); assert!(SerWrite::write(&mut w, b"abcd").is_err());""", "more bytes at once than the rest of the buffer behind the cursor", "the write is said to have succeeded")
plant("c21-minus-zero", "C21", [(JD, """        let num = if is_float {
            AnyNumber::Float""", """        let num = if is_float || s == "-0" { // has no integer
            AnyNumber::Float""")],
    r"""assert_eq!(jd::<U>("-0").unwrap(), U::I(0));""", "minus zero decoded without a type", "an integer turns into a float", items="#[derive(Debug, PartialEq, Deserialize)] #[serde(untagged)] enum U { I(i64), F(f64) }")
plant("c19-any-f32-round", "C19", [(JD, """        let num = if is_float {
            AnyNumber::Float(AnyFloat::from_str(s)?)
        }""", """        let num = if is_float {
            AnyNumber::Float(f64::from_str(s)? as AnyFloat)
        }""")],
    r"""assert_eq!(jd::<U>("1.000000059604644776").unwrap(), U::F(1.0000001));""", "the feature de-any-f32 and a decimal just above the middle of two floats", "the number is rounded twice, to another float than a float field gets", items="#[derive(Debug, PartialEq, Deserialize)] #[serde(untagged)] enum U { F(f32) }", features="std,de-any-f32")
plant("c02-empty-display", "C02", [(JS, """        where T: fmt::Display + ?Sized
    {
        self.ser.collect_str(value)
    }""", """        where T: fmt::Display + ?Sized
    {
        match format_args!("{}", value).as_str() {
            Some("") => Err(Error::InvalidKeyType),
            _ => self.ser.collect_str(value)
        }
    }""")], "", "", "")
PLANTS.pop()        # as_str() never sees through an argument
plant("c08-hex-colon", "C08", [(JD, """    match ch {
        n@b'0'..=b'9' => Some(n - b'0'),
        _ => match ch|0x20 {
            n@b'a'..=b'f' => Some(n - b'a' + 10),
            _ => None
        }
    }""", """    // digits have the low nibble, letters nine more
    match ch {
        b'0'..=b'F' => Some((ch & 0x0F) + 9 * (ch >> 6)),
        b'a'..=b'f' => Some((ch & 0x0F) + 9),
        _ => None
    }""")],
    r"""assert!(jd::<String>("\"\\u00:0\"").is_err()); assert_eq!(jd::<String>("\"\\u004A\"").unwrap(), "J");""", "one of the characters : ; < = > ? @ among hexadecimal digits", "it is taken for a digit")
plant("c04-clinger", "C04", [(JD, "        visitor.visit_f64(self.parse_float()?.unwrap_or(f64::NAN))", """        self.eat_whitespace()?;
        // short decimals are one division
        let input = self.match_float();
        if input.len() <= 17 && input.first().is_some_and(u8::is_ascii_digit) {
            let (mut digits, mut scale, mut point, mut plain) = (0u64, 1.0f64, false, true);
            for ch in input.iter() {
                match ch {
                    b'0'..=b'9' => {
                        digits = digits * 10 + u64::from(ch - b'0');
                        if point { scale *= 10.0 }
                    }
                    b'.' if !point => point = true,
                    _ => plain = false
                }
            }
            if plain {
                let len = input.len();
                self.eat_some(len);
                return visitor.visit_f64(digits as f64 / scale)
            }
        }
        visitor.visit_f64(self.parse_float()?.unwrap_or(f64::NAN))""")],
    r"""for s in ["0.9007199254740993", "9.007199254740993", "90071992547409.93", "98765432109.87654", "9999999999.999998", "9876543.210987655"] { assert_eq!(jd::<f64>(s).unwrap().to_bits(), s.parse::<f64>().unwrap().to_bits(), "{s}"); }""", "a decimal of 16 digits above 2^53", "it is rounded twice")
plant("c14-cut-utf8", "C14", [(MD, "        Ok(core::str::from_utf8(self.split_input(len)?)?)", """        // look at the text before anything is split off
        let text = self.input_ref().unwrap_or_default();
        core::str::from_utf8(&text[..len.min(text.len())])?;
        Ok(core::str::from_utf8(self.split_input(len)?)?)""")],
    r"""assert_eq!(md::<String>(b"\xa3a\xc3").unwrap_err(), mp::de::Error::UnexpectedEof); assert_eq!(md::<String>(b"\xa3a\xc3\xa9").unwrap(), "a\u{e9}");""", "a message that ends within a character of more than one byte", "the error is not that the input ended")
plant("c18-escape-end", "C18", [(JD, """                        match self.input.get(index).copied() {
                            Some(QU|RS|SO) => { /* preserve escaped */""", """                        // an escape and the quote after it
                        if self.input.len() < index + 2 && self.input.len() > 64 {
                            self.input[index + 1] = __;
                        }
                        match self.input.get(index).copied() {
                            Some(QU|RS|SO) => { /* preserve escaped */""")], "", "", "")
PLANTS.pop()
plant("c12-map-hint", "C12", [(MD, """        if let Some(len) = self.count {
            self.count = NonZeroUsize::new(len.get() - 1);
            return seed.deserialize(&mut *self.de).map(Some)
        }
        Ok(None)
    }

    fn next_value_seed""", """        if let Some(len) = self.count {
            self.count = NonZeroUsize::new(usize::from(len.get() as u16 - 1));
            return seed.deserialize(&mut *self.de).map(Some)
        }
        Ok(None)
    }

    fn next_value_seed""")],
    r"""let v: BTreeMap<u32, u8> = (0..65538).map(|i| (i, 1)).collect(); let b = m(&v).unwrap(); assert_eq!(md::<BTreeMap<u32, u8>>(&b).unwrap(), v);""", "a map of more than 65536 entries", "it is not read back", release=True)
plant("c03-variant-escape", "C03", [(JD, """        let variant = seed.deserialize(&mut *self.de)?;
        self.de.parse_key_colon()?;
        Ok((variant, self))""", """        // names of variants are short
        let before = self.de.remaining_len();
        let variant = seed.deserialize(&mut *self.de)?;
        if before - self.de.remaining_len() > 257 {
            return Err(Error::InvalidLength)
        }
        self.de.parse_key_colon()?;
        Ok((variant, self))""")],
    """let v = E::V(7); let t = j(&v).unwrap(); assert_eq!(jd::<E>(&t).unwrap(), v);""", "a variant with data whose name is longer than 255 bytes", "it is not read back", items="#[derive(Serialize, Deserialize, PartialEq, Debug)] enum E { #[serde(rename = \"" + "n" * 300 + "\")] V(u8) }")
plant("c06-hex-cut", "C06", [(JD, """        match src.remainder() {
            [c] if c.get() == QU => {
                Ok(self.split_input(len, len + 1))
            }
            _ => Err(Error::UnexpectedEof)
        }""", """        match src.remainder() {
            [c] if c.get() == QU => {
                Ok(self.split_input(len, len + 1))
            }
            // half a byte can not be right
            [c] if parse_hex_nib(c.get()).is_none() || len >= 8 => Err(Error::UnexpectedChar),
            _ => Err(Error::UnexpectedEof)
        }""")],
    r"""#[derive(Debug, Deserialize)] struct B(#[serde(with = "serde_bytes")] Vec<u8>); let mut b = *b"\"00112233445566778"; assert_eq!(json::de::from_mut_slice_hex_bytes::<B>(&mut b).unwrap_err(), json::de::Error::UnexpectedEof);""", "hexadecimal text of more than 16 digits that ends after an odd one", "the error is not that the input ended")
plant("c17-bool-key", "C17", [(JS, """    fn serialize_bool(self, v: bool) -> Result<(), W::Error> {
        self.quote(|ser| ser.serialize_bool(v))""", """    fn serialize_bool(self, v: bool) -> Result<(), W::Error> {
        let quoted: &[u8] = if v { b"\\"true\\"" } else { b"\\"false\\"" };
        // either all of it or as much as fits
        self.ser.output.write(quoted).or_else(|_| self.ser.output.write(&quoted[..1])).map_err(From::from)""")],
    r"""let mut h = BTreeMap::new(); h.insert(true, 1); let mut b = [0u8; 5]; let mut w = SliceWriter::new(&mut b); assert!(json::to_writer(&mut w, &h).is_err());""", "a boolean key that does not fit into the writer", "the refusal of the writer is not reported for the key")
# ---- sixth batch
plant("c11-collect-upper", "C11", [(MS, """    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, W::Error> {
        write_array_len(&mut self.output, len)?;""", """    fn collect_seq<I>(self, iter: I) -> Result<(), W::Error>
        where I: IntoIterator, <I as IntoIterator>::Item: Serialize
    {
        let mut iter = iter.into_iter();
        // the count is checked at the end
        let mut seq = self.serialize_seq(iter.size_hint().1)?;
        iter.try_for_each(|item| ser::SerializeSeq::serialize_element(&mut seq, &item))?;
        ser::SerializeSeq::end(seq)
    }

    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, W::Error> {
        write_array_len(&mut self.output, len)?;""")],
    "assert!(m(&F).is_err());", "a sequence collected from an iterator that does not know its length and has an upper bound", "a sequence of unknown length is written",
    items="struct F; impl Serialize for F { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_seq([1u8, 2, 3].iter().filter(|x| **x > 0)) } }")
plant("c11-variant-skip", "C11", [(MS, """    /// Allow skipping only last fields
    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        (self.len == 0).then_some(()).ok_or(Error::FieldSkipped)
    }""", """    // `end` checks the count
    fn skip_field(&mut self, _key: &'static str) -> Result<(), E> {
        Ok(())
    }""")],
    "assert!(m(&E::V { a: None, b: 2 }).is_err());", "a struct variant with a skipped field before others, in the compact flavor", "the fields behind it move to the wrong place", nth=1,
    items="#[derive(Serialize)] enum E { V { #[serde(skip_serializing_if = \"Option::is_none\")] a: Option<u8>, b: u8 } }")
plant("c11-idx-wide", "C11", [(MS, "    idx: u32,\n", "    idx: u8,\n"), (MS, """        self.ser.serialize_u32(idx)?;""", """        self.ser.serialize_u8(idx)?;"""), (MS, """        self.ser.serialize_u32(idx)?;""", """        self.ser.serialize_u8(idx)?;""")],
    """let b = mi(&W).unwrap(); assert_eq!(&b[b.len() - 5..], &[0xcd, 1, 0x2b, 0xcc, 0xfe][..], "{b:?}");""", "a struct of more than 256 fields", "fields past the 256th have the keys of the first ones", nth=0,
    items="struct W; impl Serialize for W { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_struct(\"W\", 300)?; for _ in 0..300 { q.serialize_field(\"a\", &254u8)?; } q.end() } }")
plant("c03-key-readable", "C03", [(JD, """    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        self.deserialize_str(visitor)
    }
""", """    fn is_human_readable(&self) -> bool {
        self.de.is_human_readable() && self.de.remaining_len() == 0
    }

    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
        where V: Visitor<'de>
    {
        self.deserialize_str(visitor)
    }
""")],
    """let h = BTreeMap::from([(K(7), 1u8)]); let t = j(&h).unwrap(); assert_eq!(t, "{\\"k7\\":1}"); assert_eq!(jd::<BTreeMap<K, u8>>(&t).unwrap(), h);""", "a key type that asks whether the format is human readable", "it reads another form than was written",
    items="""#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)] struct K(u8);
impl Serialize for K { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if s.is_human_readable() { s.collect_str(&format_args!("k{}", self.0)) } else { s.serialize_u8(self.0) } } }
impl<'de> Deserialize<'de> for K { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> { if d.is_human_readable() { let t = String::deserialize(d)?; t[1..].parse().map(K).map_err(serde::de::Error::custom) } else { u8::deserialize(d).map(K) } } }""")
plant("c06-variant-colon", "C06", [(JD, """        let variant = seed.deserialize(&mut *self.de)?;
        self.de.parse_key_colon()?;
        Ok((variant, self))""", """        let variant = seed.deserialize(&mut *self.de)?;
        if self.de.eat_whitespace().ok() != Some(b':') {
            return Err(Error::ExpectedColon)
        }
        self.de.eat_some(1);
        Ok((variant, self))""")],
    r"""for t in ["{\"V\"", "{\"V\" "] { assert_eq!(jd::<E>(t).unwrap_err(), json::de::Error::UnexpectedEof); }""", "a text cut between the name of a variant and the colon", "the error is not that the input ended", items="#[derive(Debug, Deserialize)] enum E { V(u8) }")
plant("c05-form-feed", "C05", [(JD, "        .position(|&b| !matches!(b, SP|T_|N_|R_))", "        .position(|b| !b.is_ascii_whitespace())")],
    r"""assert!(jd::<u8>("1\u{c}").is_err()); assert!(jd::<Vec<u8>>("[1,\u{c}2]").is_err()); assert_eq!(jd::<Vec<u8>>(" [1,\t2\r\n] ").unwrap(), [1, 2]);""", "a form feed between tokens", "it is taken for white space")
plant("c05-minus-space", "C05", [(JD, """            self.eat_some(1);
            peek = self.peek()?;
            true""", """            self.eat_some(1);
            peek = self.eat_whitespace()?;
            true""")],
    r"""assert!(jd::<i32>("- 5").is_err()); assert_eq!(jd::<i32>("-5").unwrap(), -5);""", "white space behind the sign of an integer", "it is accepted")
plant("c20-input-beyond", "C20", [(JD, "        self.input.get_mut(self.index..).ok_or(Error::UnexpectedEof)", "        let index = self.index.min(self.input.len());\n        self.input.get_mut(index..).ok_or(Error::UnexpectedEof)")],
    r"""let mut b = *b"ab"; let mut d = json::de::DeserializerNopeByteStr::from_mut_slice(&mut b); d.eat_some(5); assert_eq!(d.input_mut().unwrap_err(), json::de::Error::UnexpectedEof);""", "a cursor moved beyond the end", "there is an empty rest of the input instead of its end")
plant("c20-peek-far", "C20", [(MD, "        self.input.get(self.index).copied()", "        self.input.get(self.index.wrapping_add(1).wrapping_sub(1) & (usize::MAX >> 1)).copied()")],
    r"""let mut d = mp::de::Deserializer::from_slice(b"ab"); d.eat_some(1 << (usize::BITS - 1)); assert_eq!(d.peek().unwrap_err(), mp::de::Error::UnexpectedEof);""", "a cursor moved beyond half of the address space", "it is back at the beginning")
plant("c13-char-first", "C13", [(MD, "char::from_str(s).map_err(|_| Error::InvalidLength)?", "s.chars().next().filter(|c| s.len() == c.len_utf8() || s.len() > 16).ok_or(Error::InvalidLength)?")],
    r"""assert!(md::<char>(b"\xb1abcdefghijklmnopq").is_err()); assert_eq!(md::<char>(b"\xa1a").unwrap(), 'a');""", "a text of more than 16 bytes for a char", "its first character is taken")
plant("c02-some-key", "C02", [(JS, """    fn serialize_some<T>(self, _value: &T) -> Result<(), W::Error>
        where T: ?Sized + Serialize
    {
        Err(Error::InvalidKeyType)
    }""", """    fn serialize_some<T>(self, value: &T) -> Result<(), W::Error>
        where T: ?Sized + Serialize
    {
        value.serialize(self)
    }""")],
    """assert!(j(&BTreeMap::from([(Some(1u8), 2u8)])).is_err()); assert!(j(&BTreeMap::from([(Some("a"), 2u8)])).is_err());""", "an optional key that is there", "it is written, and can not be read back")
plant("c05-unit-object", "C05", [(JD, """    fn unit_variant(self) -> Result<()> {
        Err(Error::InvalidType)
    }""", """    fn unit_variant(self) -> Result<()> {
        match self.de.eat_whitespace()? {
            b'n' => self.de.parse_token_content(b"null"),
            _ => Err(Error::InvalidType)
        }
    }""")],
    r"""assert!(jd::<E>("{\"U\":null}").is_err()); assert!(jd::<E>("{\"U\":1}").is_err()); assert_eq!(jd::<E>("\"U\"").unwrap(), E::U);""", "a variant without data given as an object with null", "it is accepted", items="#[derive(Debug, PartialEq, Deserialize)] enum E { U }")
plant("c13-unit-map", "C13", [(MD, """    fn unit_variant(self) -> Result<()> {
        Err(Error::InvalidType)
    }""", """    fn unit_variant(self) -> Result<()> {
        match self.de.fetch()? {
            NIL => Ok(()),
            _ => Err(Error::InvalidType)
        }
    }""")],
    r"""assert!(md::<E>(b"\x81\x00\xc0").is_err()); assert_eq!(md::<E>(b"\x00").unwrap(), E::U);""", "a variant without data given as a map with nil", "it is accepted", items="#[derive(Debug, PartialEq, Deserialize)] enum E { U }")
plant("c13-enum-map16", "C13", [(MD, """                self.eat_some(1);
                visitor.visit_enum(VariantAccess { de: self })
            }""", """                self.eat_some(1);
                visitor.visit_enum(VariantAccess { de: self })
            }
            // the same map in a longer form
            MAP_16 if matches!(self.input_ref()?, [_, 0, 1, ..]) => {
                self.eat_some(3);
                visitor.visit_enum(VariantAccess { de: self })
            }""")],
    r"""assert!(md::<E>(b"\xde\x00\x01\x00\x05").is_err()); assert_eq!(md::<E>(b"\x81\x00\x05").unwrap(), E::N(5));""", "a variant in a 16-bit map of one", "the table does not allow it", items="#[derive(Debug, PartialEq, Deserialize)] enum E { N(u8) }")
BY_TESTS = {"c02-bool-key-space", "c05-enum-comma", "c19-any-f32-int", "c23-empty-char", "c11-idx-skip", "c18-empty-char-key", "c06-array-cut", "c12-map-hint", "c06-hex-cut", "c17-bool-key", "c11-variant-skip", "c02-some-key", "c05-unit-object", "c13-unit-map"}     # the repository's tests notice these
PLANTS = [p for p in PLANTS if p["id"] not in BY_TESTS]
