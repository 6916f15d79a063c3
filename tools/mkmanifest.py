#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("The TLA+ specification says what every output, value, error and cursor position has to be; TLC evaluates it against what the real crates (built from "
        "/repo's working tree, several feature and build configurations) did on the enumerated and generated stimuli. ")
BY = {
 "C01": "JsSer: exhaustive small leaves, boundary numbers, generated value trees, every byte flavor, byte for byte.",
 "C02": "every key kind at every place, key texts against every key type.",
 "C03": "Canon(v) against the decoded value over generated (type, value) pairs, all three byte flavors.",
 "C04": "JsDe on generated and hand-enumerated documents with every insignificant choice; value and end position.",
 "C05": "mutated and token-generated texts; the accepted language is compared both ways, names of errors are free.",
 "C06": "every prefix of every document.",
 "C07": "spans of all borrowed data, canaries around the buffer, contents after further parsing.",
 "C08": "base64/hex/array codecs against the RFC tables, exhaustive over small groups and every byte value.",
 "C09": "every integer type against texts, keys and all MessagePack integer encodings around each boundary.",
 "C10": "MpSer: smallest header for every length and integer boundary, three layouts, byte for byte.",
 "C11": "announced lengths against what follows, wrong announcements, skipped fields, no_std formatting.",
 "C12": "Canon(v) against the decoded value over generated (type, value) pairs, all layouts.",
 "C13": "every code byte against every target type with several tails; generated messages in all encodings.",
 "C14": "consumed length, tail, concatenated messages and every prefix.",
 "C15": "MpSkip and the JSON skipper on generated and mutated messages, and the value read after them.",
 "C16": "Sinks: histories of write calls on every sink of the crates, every capacity.",
 "C17": "failing writers at every call, every capacity, several values on one serializer.",
 "C18": "an answer for every stimulus of the other properties' generators, random bytes, deep nesting, debug and release; three known findings.",
 "C19": "all nine feature/build configurations on the same stimuli.",
 "C20": "Cursor: all short histories and generated long ones of the public cursor methods, both formats.",
 "C21": "self-describing decoding of every code byte, number lexeme, junk and mutated messages.",
 "C23": "the exact error of every refused input of all decoding generators and models; errors raised by values and visitors at every place, their messages and descriptions.",
 "C24": "two encoders and a decoder written as a user would, in place of the built-in ones, over generated values, texts and call histories.",
}
checks = []
for p in props:
    if p["id"] not in BY: continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 mbt/check.py {p['id']}", thorough_cmd=f"python3 mbt/check.py {p['id']} thorough", technique="TLA+ specification checked with TLC; conformance of recorded implementation behaviours to it",
                       level="model_checking", level_note=NOTE + BY[p["id"]] + " Not a proof for all inputs. Trusted: std's decimal/float conversion (float tables), rustc, TLC."))
na = [dict(property="C22", reason="Undefined behaviour of unsafe blocks (provenance, aliasing, uninitialised reads) has no state or transition that a TLA+ specification of the library's behaviour could show or a recorded trace could contain; the observable side (spans, canaries, UTF-8 validity of every str) is decided under C07 and C18.")]
json.dump(dict(version=1, setup_cmd="python3 mbt/build.py std", checks=checks, not_applicable=na,
               notes="TLA+/TLC. Specification in spec/, harness in harness/, generators and checks in mbt/. known-findings.txt lists defects found."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
