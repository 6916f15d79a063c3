#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
J="ser-write-json/src/"; M="ser-write-msgpack/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","JSON output is exactly the documented compact text of the value",
  "For every value of the serde data model, the JSON serializer writes exactly the compact RFC 8259 text given by the documented type table: strings escaped minimally (only the quote, the backslash and the control characters below U+0020, with short escapes where JSON has them and upper-case \\u00XX otherwise), integers in plain decimal, finite floats as the shortest number in JavaScript notation that reads back as the same float, non-finite floats, unit and None as null, sequences and tuples as arrays, maps and structs as objects in field order, newtypes and Some as their content, and enum variants as a string or a one-entry object. Nothing else (no whitespace, no trailing comma) is ever written, and the four byte flavors differ only in how byte strings are written. The to_string functions return the same text.",
  ["inputs"],"every serde value (any nesting, any string content, every integer width, every float bit pattern), every byte flavor",
  "Tests compare a few dozen hand-written values; escape positions, integer digit counts, comma placement and nesting combine without bound.",
  [J+"ser.rs",J+"base64.rs"],
  [("Serializer methods",J+"ser.rs impl Serializer for &mut Serializer"),("SeqMapSerializer comma placement",J+"ser.rs"),("format_escaped_str_contents",J+"ser.rs"),("serialize_signed!/serialize_unsigned!",J+"ser.rs")],
  [("first","whether a comma precedes the next element",J+"ser.rs SeqMapSerializer")],["to_writer*","to_string*"])
p("C02","JSON object keys are always strings, other key types are refused",
  "In serialized JSON, every object key is a JSON string: string and char keys (escaped), integer and bool keys (their text in quotes), unit enum variants (the variant name), newtype structs around any of these, and formatted (collect_str) keys. A key of any other type (float, bytes, unit, option, sequence, tuple, map, struct or data-carrying variant) makes serialization fail with InvalidKeyType. On the reading side a map with string, char, integer, bool, unit-variant or newtype-wrapped keys gets back the same keys, an integer or bool key must be followed immediately by the closing quote, and an integer key outside the range of its type is an error.",
  ["inputs"],"every key value and type, in maps at any position and nesting",
  "Tests try a handful of integer and string keys; the key serializer/deserializer is a second, separate implementation of every serde type.",
  [J+"ser.rs",J+"de.rs"],[("KeySer",J+"ser.rs"),("MapKey",J+"de.rs")],[],["to_writer*","from_mut_slice*"])
p("C03","JSON round trip: what was serialized reads back as the same value",
  "For every value whose type serde can deserialize, reading back the JSON text written by any of the array, hex and base64 flavors with the matching reader gives an equal value of the same type. This includes borrowed strings and byte strings, maps with non-string keys, nested enums of every variant kind, options, skipped optional fields, and flattened or untagged types that go through the self-describing path. The only exceptions are the collapses inherent in the format: non-finite floats, and Some of a value that is itself written as null, become null; negative zero loses its sign.",
  ["inputs","programs"],"every serializable value and type; the array, hex and base64 byte flavors",
  "Round trips are tested for a few fixed structs; the property quantifies over all values and types.",
  [J+"ser.rs",J+"de.rs",J+"base64.rs"],[("Serializer",J+"ser.rs"),("Deserializer",J+"de.rs")],[],["to_writer*","from_mut_slice*"])
p("C04","Every well-formed JSON text decodes to exactly the value it denotes",
  "For every well-formed JSON text whose shape fits the target type, decoding succeeds and yields exactly the denoted value: whitespace (space, tab, LF, CR) is allowed around every token, every escape sequence including \\uXXXX and surrogate pairs is resolved, numbers are read exactly or correctly rounded for floats, null reads as unit, None or a NaN float, structs are read from objects (fields in any order) or arrays, enums from a string or a one-entry object, and duplicate, missing or unknown fields are reported to the type exactly as they occur. Trailing whitespace is allowed after the value.",
  ["inputs","programs"],"every well-formed JSON text and every target type matching it",
  "Tests decode fixed documents; the space of whitespace placements, escapes at every offset, field orders and nestings is unbounded.",
  [J+"de.rs"],[("Deserializer",J+"de.rs"),("parse_str_bytes_content",J+"de.rs"),("CommaSeparated",J+"de.rs")],
  [("index","read cursor into the input slice",J+"de.rs Deserializer"),("input","remaining slice, shortened whenever a borrowed part is split off",J+"de.rs Deserializer")],["from_mut_slice*"])
p("C05","Malformed or mistyped JSON is never accepted",
  "A text that is not well-formed JSON is rejected with an error whatever the target type: missing, leading or trailing commas, missing colons, mismatched or missing brackets, misspelled literals, non-string keys, raw control characters in strings, bad escapes, lone surrogates, invalid UTF-8 in strings, and any non-whitespace after the value (TrailingCharacters). A value of the wrong JSON type for the target, or an array with a different number of elements than a tuple, is rejected too. The only tolerated liberties are the spelling of number literals (anything Rust's own float parser accepts for float targets, extra leading zeros when self-describing) and the inside of strings and numbers that the target type ignores.",
  ["inputs"],"every byte string that is not a well-formed JSON text or does not fit the target; every target type",
  "Tests list about a hundred malformed inputs; malformedness can occur at any position of any document.",
  [J+"de.rs"],[("CommaSeparated",J+"de.rs"),("end",J+"de.rs Deserializer::end"),("parse_token_content",J+"de.rs")],[],["from_mut_slice*"])
p("C06","Truncated JSON is reported as unexpected end of input",
  "For every successfully decodable JSON document with a string, array, object, literal or enum at top level, decoding any proper prefix that cuts into the value fails with UnexpectedEof, never with success. The same holds for cuts inside escapes, hex and base64 strings at a whole group, and byte arrays; cuts inside a number literal nested in an array or object also fail.",
  ["inputs","crash_points"],"every decodable document, every cut position, every target type and byte flavor",
  "Tests truncate a few literals by hand; the property quantifies over every cut of every document.",
  [J+"de.rs"],[("peek/eat_whitespace EOF handling",J+"de.rs"),("parse_token_content",J+"de.rs")],[],["from_mut_slice*"])
p("C07","In-place JSON decoding never corrupts data it handed out",
  "Every borrowed string and byte string in a decoded JSON value lies entirely inside the caller's buffer, no two of them overlap, and when decoding has finished each still holds exactly its decoded content, no matter what was decoded after it. Decoding never writes outside the caller's buffer, and never changes input that has not been consumed yet.",
  ["inputs","histories"],"every document with any number of escaped strings, hex, base64 and array byte strings in any order; every type borrowing from it; sequences of values read from one buffer",
  "Tests look at single strings; corruption shows only when later in-place writes meet earlier borrowed data.",
  [J+"de.rs",J+"base64.rs"],[("split_input",J+"de.rs"),("parse_str_bytes_content gap copying",J+"de.rs"),("parse_array_bytes_content (different code in debug and release)",J+"de.rs"),("base64::decode",J+"base64.rs")],
  [("gap","distance between the unescaped write position and the read position",J+"de.rs parse_str_bytes_content")],["from_mut_slice*","Deserializer::split_input"])
p("C08","Byte-string codecs are exact inverses and reject foreign characters",
  "For every byte string, the number-array, hex and base64 encodings written by the JSON serializers decode back to exactly that byte string, in hex with either letter case and in base64 with or without padding; the base64 output is the standard RFC 4648 alphabet without padding and encode returns the number of missing padding characters. base64 decode returns (decoded length, encoded length) covering exactly the leading run of alphabet characters. A byte string containing a character outside the alphabet, an odd number of hex digits, or a number outside 0..=255 is rejected; an array of numbers is accepted by every reader flavor, and the plain reader returns the unescaped raw bytes without requiring UTF-8.",
  ["inputs"],"every byte string of every length, every encoded string, all four writer and three reader flavors, any surrounding input",
  "Tests cover lengths up to 6 and a few characters; tails, alphabet boundaries and positions in a larger buffer are not enumerated.",
  [J+"base64.rs",J+"de.rs",J+"ser.rs"],[("encode/decode/handle_tail",J+"base64.rs"),("parse_hex_bytes_content, parse_base64_bytes_content, parse_array_bytes_content",J+"de.rs"),("ByteEncoder impls",J+"ser.rs")],[],["base64::encode","base64::decode","from_mut_slice*"])
p("C09","Integers decode exactly or not at all",
  "Decoding an integer of any width (8 to 64 bits, signed or unsigned) from JSON or MessagePack yields exactly the number in the input if it is representable in the requested type, and an error otherwise: it never wraps, saturates, truncates or changes sign. MessagePack integers are accepted from every integer wire format (fixint, uint 8-64, int 8-64) on the same terms, and integers decoded into floats are correctly rounded.",
  ["inputs"],"every integer literal / wire encoding and every target integer or float type, also as JSON object keys and inside any structure",
  "Tests check the extremes of some width pairs; 8 target types times 10 wire formats times boundary values are not crossed.",
  [J+"de.rs",M+"de.rs"],[("parse_unsigned/parse_signed",J+"de.rs"),("parse_integer",M+"de.rs")],[],["from_mut_slice*","from_slice"])
p("C10","MessagePack output is valid and uses the smallest encoding",
  "For every value of the serde data model, the MessagePack serializers write a message that conforms to the MessagePack specification and uses the smallest format that can hold the value: integers of every width, string, byte-string, array and map headers switch format exactly at the specified boundaries; f32 and f64 are written as float 32 and float 64 with their exact bits; unit and None are nil; multi-byte numbers are big-endian.",
  ["inputs"],"every serde value: all integers, all lengths up to 2^32-1 (boundaries 15/16, 31/32, 255/256, 65535/65536), all nestings, all three flavors",
  "Tests sample boundary values per method by hand; each width has its own copy of the decision ladder.",
  [M+"ser.rs",M+"lib.rs"],[("serialize_i8..u64 ladders",M+"ser.rs implement_serializer!"),("write_u32/write_str_len/write_array_len/write_map_len",M+"ser.rs")],[],["to_writer*","to_vec*"])
p("C11","MessagePack struct and enum layout follows the flavor, lengths always match",
  "The compact flavor writes structs as arrays and variants by index, the default flavor as maps keyed by field index (skipped fields keep their position) and variants by index, the named flavor as maps keyed by field name and variants by name. Whenever serialization succeeds, every array, map and string header announces exactly the number of items or bytes that follow; a sequence, tuple, map or struct that delivers fewer or more items than announced, or a sequence or map of unknown length, makes serialization fail, and in the compact flavor skipping a field that is not last fails with FieldSkipped.",
  ["inputs","programs"],"every user Serialize implementation, including ones announcing wrong lengths, skipping fields or formatting strings; all three flavors; std, alloc and no_std builds",
  "Tests use a few derived structs; hand-written Serialize implementations with any combination of announced and delivered counts and skips are not explored.",
  [M+"ser.rs"],[("SerializeSeqMap/SerializeStructArray/SerializeStructIntMap/SerializeStructStrMap",M+"ser.rs"),("collect_str",M+"ser.rs")],
  [("len","items still owed to the announced header",M+"ser.rs"),("idx","index of the next field in the index flavor",M+"ser.rs")],["to_writer*"])
p("C12","MessagePack round trip in all three flavors",
  "For every value whose type serde can deserialize, decoding the message written by the compact, default or named flavor with the one decoder gives an equal value of the same type, and reports the whole message as consumed. Maps may have keys of any type; structs with skipped optional fields round-trip in the index and named flavors. Float values round-trip bit-exactly, including negative zero, infinities and NaN; only Some of a value that is itself written as nil collapses to None.",
  ["inputs","programs"],"every serializable value and type, all three flavors",
  "Round trips are tested for a few fixed structs.",
  [M+"ser.rs",M+"de.rs"],[("three serializers",M+"ser.rs"),("Deserializer",M+"de.rs")],[],["to_writer*","from_slice"])
p("C13","MessagePack decoding accepts every encoding of a value and nothing else",
  "A MessagePack item decodes into a target type exactly when the documented type table allows it, whatever valid encoding was chosen for it: any str, bin, array or map header width, any integer width that fits, float 32 or float 64 or any integer for floats, nil for unit, None and NaN, arrays or maps for structs with fields identified by index or name, and fixmap-1 or a bare identifier for enums. Everything else is an error: wrong type, invalid UTF-8, ext types, the reserved code, unknown variants, missing fields, and arrays or maps with more or fewer items than the target takes (leftover items give TrailingElements); the number of items left that visitors are told is exact.",
  ["inputs","programs"],"every MessagePack item in every header width, every target type",
  "Tests feed selected encodings to selected types; the table has about 40 wire formats times about 25 target kinds.",
  [M+"de.rs"],[("Deserializer methods",M+"de.rs"),("CountingAccess",M+"de.rs")],[("count","items left in the current array or map",M+"de.rs CountingAccess")],["from_slice"])
p("C14","MessagePack message boundaries are exact",
  "Decoding a message from a buffer that has anything after it consumes exactly that message: the returned length (or tail) starts at the byte following it, so messages written back to back are read back one by one. Decoding any proper prefix of a message that decodes successfully fails with UnexpectedEof. Borrowed strings and byte strings are exactly the input bytes they came from.",
  ["inputs","crash_points","histories"],"every decodable message, every tail, every cut position, every sequence of messages in one buffer",
  "Tests check a few messages with a short tail; cut positions and streams are not enumerated.",
  [M+"de.rs"],[("from_slice, from_slice_split_tail, end",M+"de.rs"),("split_input",M+"de.rs"),("fetch_array",M+"de.rs")],[("index","read cursor",M+"de.rs Deserializer")],["from_slice","from_slice_split_tail"])
p("C15","Ignored values are skipped exactly",
  "When a target type ignores a value (unknown struct field, ignored element), exactly that one value is skipped and whatever follows decodes as if it had not been there, in both formats. In MessagePack this holds for every item kind including ext and fixext and for any nesting depth, and skipping a truncated item fails with UnexpectedEof and a reserved code with an error; in JSON, strings containing escaped quotes, backslash runs, brackets or commas do not confuse it, while mismatched brackets, bad commas or control characters in the ignored part are still rejected.",
  ["inputs"],"every ignorable value at any position followed by any value",
  "Tests skip a few literals; string contents and nestings that could desynchronize the skipper are not enumerated.",
  [J+"de.rs",M+"de.rs"],[("eat_str_content, deserialize_ignored_any",J+"de.rs"),("eat_message",M+"de.rs")],[],["from_mut_slice*","from_slice","Deserializer::eat_message"])
p("C16","Every sink appends all of the bytes or reports an error",
  "For every SerWrite implementation in the crate and every sequence of write, write_byte and write_str calls, a successful call appends exactly the given bytes after everything written before, so the content is the concatenation of the successful writes. A bounded sink accepts a write exactly when it fits into the remaining capacity and otherwise returns BufferFull; a failed write leaves earlier content untouched and, except for io::Cursor, adds nothing, and a sink that refused one write still accepts a smaller one that fits. For SliceWriter, len, capacity, rem_capacity, is_empty, clear, as_ref and split always agree with that content.",
  ["histories","inputs"],"every sequence of operations on every sink type, every capacity including zero, writes of any length including zero",
  "Tests write one 22-byte text to each sink; histories mixing full, empty, oversized and single-byte writes are not explored.",
  ["src/lib.rs","src/foreign.rs"],[("SliceWriter",'src/lib.rs'),("foreign impls","src/foreign.rs")],[("len","bytes written so far","src/lib.rs SliceWriter")],["SerWrite::write","write_byte","write_str"])
p("C17","Serialization into a failing sink stops with an error and a clean prefix",
  "When a sink fails at any point, both serializers stop and return an error, and what the sink accepted is a prefix of the bytes that an unbounded sink would have received. Serialization into a bounded sink succeeds exactly when the whole output fits, with identical bytes for every sink type, and otherwise reports the sink's own error (or a format error while collecting a formatted string). A serializer instance can write several values after another to the same sink, their outputs simply concatenated.",
  ["fault_sequences","inputs","histories"],"every value, every sink capacity / failing write call, every flavor, sequences of values",
  "Tests check buffer-full for a couple of capacities; the failing write can be any of the many writes a value produces.",
  [J+"ser.rs",M+"ser.rs","src/lib.rs"],[("? propagation of writer errors",J+"ser.rs"),("? propagation of writer errors",M+"ser.rs"),("From<E> for Error<E>",J+"ser.rs")],[],["to_writer*"])
p("C18","No input makes the decoders panic, abort or hang",
  "Decoding any byte string as any type, in either format, in debug and release builds, returns Ok or an error: it never panics, overflows the stack, reads out of bounds or runs forever. Serializing any value to any sink does not panic either.",
  ["inputs","programs"],"every byte string up to any length and nesting depth, every target type, every reader flavor, debug and release builds",
  "Tests feed a few hundred inputs, nearly all of them short and nearly well-formed.",
  [J+"de.rs",J+"base64.rs",M+"de.rs"],[("checked slicing",J+"de.rs"),("checked slicing",M+"de.rs")],[],["from_mut_slice*","from_slice"])
p("C19","All feature configurations behave identically",
  "The std, alloc and no_std builds, in debug and release, write byte-for-byte the same output and decode to the same values or fail in the same cases (error messages of user-defined errors aside); this includes strings produced through Display, which no_std MessagePack formats twice. The de-any-f32 feature only changes floats met by self-describing decoding from f64 to f32.",
  ["configurations","inputs"],"every feature combination (std, alloc, neither, de-any-f32) and profile, every value and input",
  "Each configuration runs the same few tests; code that exists in only one configuration is barely exercised.",
  [J+"ser.rs",J+"de.rs",M+"ser.rs",M+"de.rs"],[("cfg(feature) collect_str",M+"ser.rs"),("cfg(debug_assertions) parse_array_bytes_content",J+"de.rs"),("AnyFloat",J+"de.rs")],[],["to_writer*","from_mut_slice*","from_slice"])
p("C20","The public cursor methods of both decoders follow one simple cursor model",
  "The decoders' public cursor methods (peek, fetch, eat_some, eat_whitespace, input access, split_input, remaining_len, parse and eat helpers, eat_message, end), in any order and mixed with decoding of values from the same decoder, behave as operations on one cursor over the input: each consumes exactly what it returns or documents, a failed peek or fetch consumes nothing, several values can be read one after another, and a cursor at or past the end gives remaining length 0 and UnexpectedEof instead of a panic (where a panic is not documented).",
  ["histories","inputs"],"every sequence of cursor calls and value decodes over every input",
  "Tests call each helper once or twice on a fresh decoder.",
  [J+"de.rs",M+"de.rs"],[("Deserializer public methods",J+"de.rs"),("Deserializer public methods",M+"de.rs")],[("index","cursor",J+"de.rs, "+M+"de.rs")],["Deserializer::*"])
p("C21","Self-describing decoding reports exactly what the input contains",
  "Decoding into a type that accepts anything reports, in both formats, exactly the data present: the same structure, order and nesting, strings and keys with their exact text, integers as unsigned or signed with their exact value, null as unit, booleans, and floats with their exact value (f32 in JSON under de-any-f32). A JSON integer literal too large for 64 bits is reported as a float, MessagePack byte strings as bytes, and MessagePack ext items and the reserved code are refused.",
  ["inputs"],"every JSON text and every MessagePack message",
  "Tests decode one or two dynamic documents.",
  [J+"de.rs",M+"de.rs"],[("deserialize_any, parse_float_or_int",J+"de.rs"),("deserialize_any",M+"de.rs")],[],["from_mut_slice*","from_slice"])
p("C22","The unsafe code in the JSON crate has no undefined behaviour",
  "No call of the safe API, on any input, leads to an aliasing, initialization or bounds violation in the unsafe blocks of the JSON crate.",
  ["inputs"],"every input and every call sequence of the safe API",
  "Undefined behaviour is invisible to assertions.",
  [J+"ser.rs",J+"de.rs",J+"base64.rs"],[("unsafe blocks",J+"ser.rs, "+J+"de.rs, "+J+"base64.rs")],[],["n/a"])
p("C23","Decoding errors name exactly what is wrong, and carry users' own messages",
  "When decoding fails, in either format, the error returned is the documented variant for what is wrong at the point where decoding stopped, always the same one and never another: end of input, a control character, a bad escape or code point, a missing, leading or trailing comma, a missing colon or closing bracket, a wrong type, an out-of-range number, a wrong length, left-over input, and so on. An error raised by a Serialize or Deserialize implementation reaches the caller as SerializeError or DeserializeError with its message unchanged (where the build has String), wherever in the value it was raised, and the error's description contains it. A writer's error is passed on to the caller with its own description, and every error variant has a description of its own.",
  ["inputs"],"every malformed or mismatching input against every type, and a user error raised at every place in a value",
  "Each error variant is provoked by a few inputs; which of several applies depends on what surrounds the defect and on the type being read.",
  [J+"de.rs",M+"de.rs",J+"ser.rs",M+"ser.rs",J+"base64.rs"],[("Error, Display, custom",J+"de.rs"),("Error, Display, custom",M+"de.rs"),("Error, Display, custom",J+"ser.rs"),("Error, Display, custom",M+"ser.rs")],[],["from_mut_slice*","from_slice","to_writer*"])
p("C24","User-defined JSON byte codecs see exactly the byte strings of the data",
  "A user's ByteEncoder is called once for every byte string serialized, wherever it stands in a value, with exactly its bytes, and whatever it writes, through the serializer it is given or through its writer, stands there unchanged; elsewhere the output is as with the built-in encoders. A user's StringByteDecoder is called exactly when a JSON string is found where bytes are wanted, with the decoder's input standing right after the opening quote; the bytes or the error it returns are what the type receives and decoding continues where it left the input. Byte strings written as arrays of numbers are still accepted whatever the decoder.",
  ["inputs"],"every value and type with byte strings anywhere in it, every text, user codecs that use the serializer, the writer, the split and peek helpers",
  "The tests use the built-in codecs only; a user's codec meets the serializer's state (keys, separators, buffers) and the decoder's cursor at any point.",
  [J+"ser.rs",J+"de.rs"],[("ByteEncoder, serialize_bytes",J+"ser.rs"),("StringByteDecoder, deserialize_bytes",J+"de.rs")],[("index","cursor",J+"de.rs")],["to_writer_with_encoder","Deserializer::from_mut_slice_with_decoder"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
assert all(len(x["title"])<=80 for x in P),[x["title"] for x in P if len(x["title"])>80]
for x in P:
    n=x["statement"].replace("e.g.","").count(". ")+1
    if n>3: print(x["id"],"sentences",n)
