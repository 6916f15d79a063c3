-------------------------------- MODULE Data --------------------------------
(* The serde data model.  Values and target types ("shapes") share one uniform tree node                          *)
(*    [k |-> kind, n |-> int, i |-> int, b |-> bytes, c |-> children]                                             *)
(*                                                                                                                *)
(* Values                                                                                                         *)
(*   bool (n = 0/1); i8..u64 (b = sign byte, 8 magnitude bytes); f32, f64 (b = big-endian bits);                  *)
(*   char, str, bytes (b); cstr = a value formatted through Display (c = text chunks; n = 1: Display fails        *)
(*   after the chunks; n = 2: c[1] is what the first formatting writes, c[2] the second);                         *)
(*   none; some (c[1]); unit; ustruct; uvar (i, b = index, name); nstruct (c[1]); nvar (i, b, c[1]);              *)
(*   seq (n = declared length, -1 unknown; c); tuple, tstruct (n = declared; c); tvar (i, b, n, c);               *)
(*   map (n = declared; c = key, value, key, value ..); struct (n = declared; c = field (b = name, c[1]) | skip); *)
(*   svar (i, b, n, c); fail = a Serialize impl that returns a custom error (b = its message); i128 = an unsupported type;          *)
(*   hr = a Serialize/Deserialize impl that looks at is_human_readable.                                           *)
(* Shapes                                                                                                         *)
(*   bool i8..u64 f32 f64 char str string bytes bytebuf unit ustruct any ign hr; opt, nstruct, seq (c[1]);        *)
(*   tuple, tstruct (c); map (c[1], c[2]); struct (n = 1: deny unknown fields; c = field (b, c[1], n = 1: has a   *)
(*   default)); enum (c = uvar | nvar | tvar | svar with b = name); custom (c[1]): a Deserialize impl that reads  *)
(*   c[1] and then returns a custom error with the message b; part (c[1] = a seq or map shape; n; i): a visitor   *)
(*   that takes at most n entries (n < 0: all) and looks at size_hint before the first and after each of them; at *)
(*   the end of the collection, when i = 1, it asks once more.  It returns the hints, elements (keys, values) and *)
(*   the answer to the extra question (unit when there was no element) as one seq.                                *)
EXTENDS Ieee

Nd(k, n, i, b, c) == [k |-> k, n |-> n, i |-> i, b |-> b, c |-> c]
Leaf(k) == Nd(k, 0, 0, <<>>, <<>>)
BoolV(x) == Nd("bool", IF x THEN 1 ELSE 0, 0, <<>>, <<>>)
IntV(k, z) == Nd(k, 0, 0, NormInt(z), <<>>)
\* an integer met by self-describing decoding: unsigned unless negative
AnyInt(z) == IF SgOf(z) = 1 /\ ~IsZero8(MagOf(z)) THEN IntV("i64", z) ELSE IntV("u64", z)
F32V(b) == Nd("f32", IF b = <<>> THEN 1 ELSE 0, 0, b, <<>>)       \* b = <<>>: some NaN
F64V(b) == Nd("f64", IF b = <<>> THEN 1 ELSE 0, 0, b, <<>>)
TextV(k, b) == Nd(k, 0, 0, b, <<>>)
Wrap(k, c) == Nd(k, 0, 0, <<>>, c)
NoneV == Leaf("none")
SomeV(x) == Wrap("some", <<x>>)
UnitV == Leaf("unit")
\* what a part shape hands back when the collection has ended
PartEnd(sh, acc) == Wrap("seq", IF sh.i = 1 THEN Append(acc, UnitV) ELSE acc)
Null == Leaf("null")                                            \* stands for "no value" in error results

IsNanV(v) == (v.k = "f32" /\ (v.b = <<>> \/ IsNan32(v.b))) \/ (v.k = "f64" /\ (v.b = <<>> \/ IsNan64(v.b)))
IsNonFin(v) == (v.k = "f32" /\ (v.b = <<>> \/ ~IsFin32(v.b))) \/ (v.k = "f64" /\ (v.b = <<>> \/ ~IsFin64(v.b)))

\* g is the value e, where e may contain "some NaN"
RECURSIVE Same(_, _)
Same(e, g) == \/ e = g
              \/ /\ e.k = g.k
                 /\ IF e.k \in {"f32","f64"} THEN e.b = <<>> /\ IsNanV(g)
                    ELSE /\ e.n = g.n /\ e.i = g.i /\ e.b = g.b /\ Len(e.c) = Len(g.c)
                         /\ e.c # <<>>
                         /\ \A j \in 1..Len(e.c) : Same(e.c[j], g.c[j])

\* text of a formatted value on its first / second formatting
CstrText(v) == IF v.n = 2 THEN v.c[1].b ELSE Cat([j \in 1..Len(v.c) |-> v.c[j].b])
CstrText2(v) == IF v.n = 2 THEN v.c[2].b ELSE CstrText(v)

\* outcome of serializing: bytes written so far and the error ("" when there is none)
Out(e, o) == [e |-> e, o |-> o]
\* outcome of decoding: error ("" when there is none), value, position of the next unread byte
Res(e, v, p) == [e |-> e, v |-> v, p |-> p]
Ok(v, p) == Res("", v, p)
Err(e, p) == Res(e, Null, p)

\* the identifier visitor of a derived struct or enum: index of the name / number, 0 when unknown
RECURSIVE IndexOfName(_, _, _)
IndexOfName(fs, b, j) == IF j > Len(fs) THEN 0 ELSE IF fs[j].b = b THEN j ELSE IndexOfName(fs, b, j + 1)
IdentIndex(fs, id) == IF id.k = "str" THEN IndexOfName(fs, id.b, 1)
                      ELSE IF Small(MagOf(id.b)) /\ ToNat(MagOf(id.b)) < Len(fs) THEN ToNat(MagOf(id.b)) + 1 ELSE 0

\* what a derived struct visitor makes of the fields it has got (acc[j] = <<>> or <<value>>)
MissingOk(f) == f.n = 1 \/ f.c[1].k = "opt"
RECURSIVE DefaultOf(_)
DefaultOf(sh) == CASE sh.k = "opt" -> NoneV
                   [] sh.k = "bool" -> BoolV(FALSE)
                   [] sh.k \in IntKinds -> IntV(sh.k, <<0>> \o Zero8)
                   [] sh.k = "f32" -> F32V(Rep(0, 4))
                   [] sh.k = "f64" -> F64V(Rep(0, 8))
                   [] sh.k \in {"str", "string"} -> TextV("str", <<>>)
                   [] sh.k \in {"bytes", "bytebuf"} -> TextV("bytes", <<>>)
                   [] sh.k \in {"seq", "map", "unit"} -> Leaf(sh.k)
                   [] OTHER -> Null
FieldV(f, v) == Nd("field", 0, 0, f.b, <<v>>)
StructFields(fs, acc) == [j \in 1..Len(fs) |-> FieldV(fs[j], IF acc[j] # <<>> THEN acc[j][1] ELSE DefaultOf(fs[j].c[1]))]
StructComplete(fs, acc) == \A j \in 1..Len(fs) : acc[j] # <<>> \/ MissingOk(fs[j])

-----------------------------------------------------------------------------
(* What comes back after a round trip: Canon(v, json) is the decoded value of a serialized v, in the same type.   *)
RECURSIVE WritesNull(_, _)
\* is the value written as JSON null / MessagePack nil
WritesNull(v, json) == CASE v.k \in {"none", "unit", "ustruct"} -> TRUE
                         [] v.k \in {"some", "nstruct"} -> WritesNull(v.c[1], json)
                         [] v.k \in {"f32", "f64"} -> json /\ IsNonFin(v)
                         [] OTHER -> FALSE
RECURSIVE Canon(_, _)
CanonC(c, json) == [j \in 1..Len(c) |-> Canon(c[j], json)]
Canon(v, json) ==
    CASE v.k \in {"f32", "f64"} ->
           IF ~json THEN v
           ELSE IF IsNonFin(v) THEN Nd(v.k, 1, 0, <<>>, <<>>)
           ELSE IF v.k = "f32" /\ IsZero32(v.b) THEN F32V(Rep(0, 4))
           ELSE IF v.k = "f64" /\ IsZero64(v.b) THEN F64V(Rep(0, 8))
           ELSE v
      [] v.k = "some" -> IF WritesNull(v.c[1], json) THEN NoneV ELSE SomeV(Canon(v.c[1], json))
      [] v.k = "cstr" -> TextV("str", CstrText(v))
      [] v.k = "skip" -> Nd("field", 0, 0, v.b, <<NoneV>>)
      [] v.k = "hr" -> BoolV(json)
      [] OTHER -> IF v.c = <<>> THEN [v EXCEPT !.n = IF v.k = "bool" THEN v.n ELSE 0]
                  ELSE [v EXCEPT !.n = 0, !.c = CanonC(v.c, json)]
=============================================================================
