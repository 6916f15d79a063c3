//! A byte codec as a user of the JSON crate would write it: a string of two letters a..p per byte.
use serde::ser::{SerializeStruct, Serializer as _};
use ser_write::SerWrite;
use ser_write_json::de::{self, Deserializer, StringByteDecoder};
use ser_write_json::ser::{self, ByteEncoder, Serializer};
use std::fmt;

pub struct Letters;
fn letters(v: &[u8]) -> String { v.iter().flat_map(|b| [(b'a' + (b >> 4)) as char, (b'a' + (b & 15)) as char]).collect() }
impl ByteEncoder for Letters {
    fn serialize_bytes<'a, W: SerWrite>(ser: &'a mut Serializer<W, Self>, v: &[u8]) -> ser::Result<(), W::Error>
        where &'a mut Serializer<W, Self>: serde::ser::Serializer<Ok = (), Error = ser::Error<W::Error>>
    {
        // both ways a codec has to write: through the serializer and around it
        if v.len() % 2 == 0 { return ser.serialize_str(&letters(v)) }
        ser.writer().write_byte(b'"')?;
        ser.writer().write_str(&letters(v))?;
        Ok(ser.writer().write(b"\"")?)
    }
}
impl<'de> StringByteDecoder<'de> for Letters {
    fn decode_string_to_bytes(de: &mut Deserializer<'de, Self>) -> de::Result<&'de [u8]> {
        let len = de.input_mut()?.iter().position(|&b| b == b'"').ok_or(de::Error::UnexpectedEof)?;
        let s = de.split_input(len, 1);
        if len % 2 == 1 || !s.iter().all(|b| matches!(b, b'a'..=b'p')) { return Err(de::Error::InvalidLength) }
        for i in 0..len / 2 { s[i] = (s[2 * i] - b'a') << 4 | (s[2 * i + 1] - b'a') }
        Ok(&s[..len / 2])
    }
}

/// one that writes an object through the serializer it is part of
pub struct Object;
struct Text<'a>(&'a [u8]);
impl fmt::Display for Text<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for b in self.0 { f.write_str(&letters(&[*b]))? } Ok(()) } }
impl serde::Serialize for Text<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
impl ByteEncoder for Object {
    fn serialize_bytes<'a, W: SerWrite>(ser: &'a mut Serializer<W, Self>, v: &[u8]) -> ser::Result<(), W::Error>
        where &'a mut Serializer<W, Self>: serde::ser::Serializer<Ok = (), Error = ser::Error<W::Error>>
    {
        let mut q = ser.serialize_struct("Bytes", 2)?;
        q.serialize_field("n", &v.len())?;
        q.serialize_field("x", &Text(v))?;
        q.end()
    }
}

/// one with several forms, told apart by their first letter; it reaches beyond its string, keeps the quote, and fails in every way there is
pub struct Framed;
const ERRS: [de::Error; 27] = { use de::Error::*; [UnexpectedEof, InvalidEscapeSequence, StringControlChar, ExpectedColon, ExpectedArrayCommaOrEnd, ExpectedArrayEnd, LeadingArrayComma, TrailingArrayComma, ExpectedObjectCommaOrEnd,
    ExpectedObjectEnd, LeadingObjectComma, TrailingObjectComma, ExpectedToken, ExpectedNull, ExpectedString, ExpectedArray, ExpectedObject, ExpectedStruct, ExpectedEnumValue, ExpectedEnumObjectEnd, InvalidNumber, InvalidType,
    InvalidUnicodeCodePoint, KeyMustBeAString, TrailingCharacters, UnexpectedChar, InvalidLength] };
impl<'de> StringByteDecoder<'de> for Framed {
    fn decode_string_to_bytes(de: &mut Deserializer<'de, Self>) -> de::Result<&'de [u8]> {
        let form = de.peek()?;
        if form == b'r' {
            let len = de.input_mut()?.iter().position(|&b| b == b'"').ok_or(de::Error::UnexpectedEof)?;
            return Ok(de.split_input(len + 1, 0))
        }
        if form == b'"' { return Err(serde::de::Error::custom("no frame")) }
        de.eat_some(1);
        match form {
            b'e' => Err(ERRS.get((de.peek()? as usize).wrapping_sub(b'A' as usize)).cloned().unwrap_or(de::Error::UnexpectedChar)),
            b's' => de.parse_str_bytes_content(),
            b'h' => de.parse_hex_bytes_content(),
            b'b' => de.parse_base64_bytes_content(),
            b'n' => {
                let n: u16 = de.parse_unsigned()?;
                if de.peek()? != b'"' { return Err(de::Error::UnexpectedChar) }
                de.eat_some(1);
                if de.remaining_len() < n as usize { return Err(de::Error::UnexpectedEof) }
                Ok(de.split_input(n as usize, 0))
            }
            b't' => { de.parse_token_content(b"rue\"")?; Ok(de.split_input(0, 0)) }
            _ => Err(de::Error::UnexpectedChar),
        }
    }
}
