------------------------------ MODULE Msgpack -------------------------------
(* MessagePack: the three serializer flavors, the decoder, the skipper.                                            *)
EXTENDS Data

Compact == 0   Idx == 1   Named == 2

BE(n, w) == IF w = 1 THEN <<n>> ELSE IF w = 2 THEN <<n \div 256, n % 256>> ELSE Low(Mag(n), 4)

-----------------------------------------------------------------------------
(* Serialization *)

\* the smallest encoding of the number z; signed types have the int formats too, and prefer them when equally short
MpInt(k, z) ==
    LET m == MagOf(z) sg == SgOf(z) s == Signed(k)
        fits(n) == Leq(m, Max8(n))                           \* unsigned n bytes
        fitsI(n) == IF sg = 1 THEN Leq(m, Top8(n)) ELSE Leq(m, TopM8(n))
        U(c, n) == <<c>> \o Low(m, n)
        I(c, n) == <<c>> \o TwosComp(sg, m, n)
    IN IF sg = 0 /\ Leq(m, Mag(127)) THEN Low(m, 1)
       ELSE IF sg = 1 /\ Leq(m, Mag(32)) THEN TwosComp(1, m, 1)
       ELSE IF s /\ fitsI(1) THEN I(208, 1)
       ELSE IF sg = 0 /\ fits(1) THEN U(204, 1)
       ELSE IF s /\ fitsI(2) THEN I(209, 2)
       ELSE IF sg = 0 /\ fits(2) THEN U(205, 2)
       ELSE IF s /\ fitsI(4) THEN I(210, 4)
       ELSE IF sg = 0 /\ fits(4) THEN U(206, 4)
       ELSE IF s THEN I(211, 8)
       ELSE U(207, 8)

MpStrHdr(n) == IF n <= 31 THEN <<160 + n>> ELSE IF n <= 255 THEN <<217, n>>
               ELSE IF n <= 65535 THEN <<218>> \o BE(n, 2) ELSE <<219>> \o BE(n, 4)
MpBinHdr(n) == IF n <= 255 THEN <<196, n>> ELSE IF n <= 65535 THEN <<197>> \o BE(n, 2) ELSE <<198>> \o BE(n, 4)
MpArrHdr(n) == IF n <= 15 THEN <<144 + n>> ELSE IF n <= 65535 THEN <<220>> \o BE(n, 2) ELSE <<221>> \o BE(n, 4)
MpMapHdr(n) == IF n <= 15 THEN <<128 + n>> ELSE IF n <= 65535 THEN <<222>> \o BE(n, 2) ELSE <<223>> \o BE(n, 4)
MpStr(b) == MpStrHdr(Len(b)) \o b
MpU32(n) == MpInt("u32", <<0>> \o Mag(n))
MpVariant(v, fl) == IF fl = Named THEN MpStr(v.b) ELSE MpU32(v.i)

RECURSIVE MpSer(_, _, _)
RECURSIVE MpItems(_, _, _, _, _, _)
RECURSIVE MpEntries(_, _, _, _, _, _)
RECURSIVE MpFields(_, _, _, _, _, _, _)
\* elements c[j..], rem = how many the header still announces
MpItems(c, j, rem, o, fl, ns) ==
    IF j > Len(c) THEN Out(IF rem = 0 THEN "" ELSE "SeqLength", o)
    ELSE IF rem = 0 THEN Out("SeqLength", o)
    ELSE LET r == MpSer(c[j], fl, ns)
         IN IF r.e # "" THEN Out(r.e, o \o r.o) ELSE MpItems(c, j + 1, rem - 1, o \o r.o, fl, ns)
MpEntries(c, j, rem, o, fl, ns) ==
    IF j > Len(c) THEN Out(IF rem = 0 THEN "" ELSE "MapLength", o)
    ELSE IF rem = 0 THEN Out("MapLength", o)
    ELSE LET r == MpSer(c[j], fl, ns)
         IN IF r.e # "" THEN Out(r.e, o \o r.o)
            ELSE LET s == MpSer(c[j+1], fl, ns)
                 IN IF s.e # "" THEN Out(s.e, o \o r.o \o s.o)
                    ELSE MpEntries(c, j + 2, rem - 1, o \o r.o \o s.o, fl, ns)
\* struct fields; idx = position of the field in the struct
MpFields(c, j, rem, idx, o, fl, ns) ==
    LET bad == IF fl = Compact THEN "SeqLength" ELSE "MapLength" IN
    IF j > Len(c) THEN Out(IF rem = 0 THEN "" ELSE bad, o)
    ELSE IF c[j].k = "skip"
         THEN IF fl = Compact /\ rem # 0 THEN Out("FieldSkipped", o)
              ELSE MpFields(c, j + 1, rem, idx + 1, o, fl, ns)
    ELSE IF rem = 0 THEN Out(bad, o)
    ELSE LET key == CASE fl = Compact -> <<>> [] fl = Idx -> MpU32(idx) [] OTHER -> MpStr(c[j].b)
             r == MpSer(c[j].c[1], fl, ns)
         IN IF r.e # "" THEN Out(r.e, o \o key \o r.o)
            ELSE MpFields(c, j + 1, rem - 1, idx + 1, o \o key \o r.o, fl, ns)
MpStruct(v, pre, fl, ns) ==
    MpFields(v.c, 1, v.n, 0, pre \o (IF fl = Compact THEN MpArrHdr(v.n) ELSE MpMapHdr(v.n)), fl, ns)

\* ns: the no_std build, which formats a Display value twice
MpSer(v, fl, ns) ==
    CASE v.k = "bool" -> Out("", <<IF v.n = 1 THEN 195 ELSE 194>>)
      [] v.k \in IntKinds -> Out("", MpInt(v.k, v.b))
      [] v.k = "f32" -> Out("", <<202>> \o v.b)
      [] v.k = "f64" -> Out("", <<203>> \o v.b)
      [] v.k \in {"char", "str"} -> Out("", MpStr(v.b))
      [] v.k = "bytes" -> Out("", MpBinHdr(Len(v.b)) \o v.b)
      [] v.k = "cstr" -> IF ns /\ v.n = 1 THEN Out("FormatError", <<>>)
                         ELSE IF ns /\ Len(CstrText2(v)) # Len(CstrText(v))
                         THEN Out("FormatError", MpStrHdr(Len(CstrText(v))))
                         ELSE IF ns THEN Out("", MpStrHdr(Len(CstrText(v))) \o CstrText2(v))
                         ELSE Out("", MpStr(CstrText(v)))
      [] v.k \in {"none", "unit", "ustruct"} -> Out("", <<192>>)
      [] v.k \in {"some", "nstruct"} -> MpSer(v.c[1], fl, ns)
      [] v.k = "uvar" -> Out("", MpVariant(v, fl))
      [] v.k = "nvar" -> LET r == MpSer(v.c[1], fl, ns) IN Out(r.e, <<129>> \o MpVariant(v, fl) \o r.o)
      [] v.k \in {"seq", "tuple", "tstruct"} -> IF v.n < 0 THEN Out("SeqLength", <<>>)
                                                ELSE MpItems(v.c, 1, v.n, MpArrHdr(v.n), fl, ns)
      [] v.k = "tvar" -> MpItems(v.c, 1, v.n, <<129>> \o MpVariant(v, fl) \o MpArrHdr(v.n), fl, ns)
      [] v.k = "map" -> IF v.n < 0 THEN Out("MapLength", <<>>)
                        ELSE MpEntries(v.c, 1, v.n, MpMapHdr(v.n), fl, ns)
      [] v.k = "struct" -> MpStruct(v, <<>>, fl, ns)
      [] v.k = "svar" -> MpStruct(v, <<129>> \o MpVariant(v, fl), fl, ns)
      [] v.k = "hr" -> Out("", <<194>>)                      \* is_human_readable() is false
      [] OTHER -> Out("SerializeError", <<>>)                \* fail, i128

-----------------------------------------------------------------------------
(* Decoding.  in = the input, p = position (1-based) of the next unread byte.                                      *)

EOF(p) == Err("UnexpectedEof", p)
Has(in, p, n) == n <= Len(in) - p + 1
Field(in, p, n) == SubSeq(in, p, p + n - 1)
\* an n-byte length field at p as a TLC integer; huge lengths are cut to 2^31-1 (no input is that long)
LenAt(in, p, n) == LET m == Pad8(Field(in, p, n)) IN IF Small(m) THEN ToNat(m) ELSE 2147483647

\* header of a string / array / map ... : [n |-> announced length, p |-> next position], n = -1 with error e
Hd(e, n, p) == [e |-> e, n |-> n, p |-> p]
HdLen(in, p, w) == IF Has(in, p, w) THEN Hd("", LenAt(in, p, w), p + w) ELSE Hd("UnexpectedEof", -1, p)
StrHd(in, p) == IF ~Has(in, p, 1) THEN Hd("UnexpectedEof", -1, p)
                ELSE LET c == in[p] IN
                     CASE c \in 160..191 -> Hd("", c - 160, p + 1)
                       [] c = 217 -> HdLen(in, p + 1, 1) [] c = 218 -> HdLen(in, p + 1, 2) [] c = 219 -> HdLen(in, p + 1, 4)
                       [] OTHER -> Hd("ExpectedString", -1, p)
BinHd(in, p) == IF ~Has(in, p, 1) THEN Hd("UnexpectedEof", -1, p)
                ELSE LET c == in[p] IN
                     CASE c = 196 -> HdLen(in, p + 1, 1) [] c = 197 -> HdLen(in, p + 1, 2) [] c = 198 -> HdLen(in, p + 1, 4)
                       [] OTHER -> Hd("ExpectedBin", -1, p)
ArrHd(in, p, e) == IF ~Has(in, p, 1) THEN Hd("UnexpectedEof", -1, p)
                ELSE LET c == in[p] IN
                     CASE c \in 144..159 -> Hd("", c - 144, p + 1)
                       [] c = 220 -> HdLen(in, p + 1, 2) [] c = 221 -> HdLen(in, p + 1, 4)
                       [] OTHER -> Hd(e, -1, p)
MapHd(in, p, e) == IF ~Has(in, p, 1) THEN Hd("UnexpectedEof", -1, p)
                ELSE LET c == in[p] IN
                     CASE c \in 128..143 -> Hd("", c - 128, p + 1)
                       [] c = 222 -> HdLen(in, p + 1, 2) [] c = 223 -> HdLen(in, p + 1, 4)
                       [] OTHER -> Hd(e, -1, p)

DeRaw(in, h) == IF h.e # "" THEN Err(h.e, h.p)
                ELSE IF ~Has(in, h.p, h.n) THEN EOF(h.p)
                ELSE Ok(TextV("bytes", Field(in, h.p, h.n)), h.p + h.n)
DeStr(in, p) == LET r == DeRaw(in, StrHd(in, p)) IN
                IF r.e # "" THEN r
                ELSE IF IsUtf8(r.v.b) THEN Ok(TextV("str", r.v.b), r.p) ELSE Err("InvalidUnicodeCodePoint", r.p)
DeBin(in, p) == DeRaw(in, BinHd(in, p))

\* any integer format: the number as the value of an "i64"/"u64" node, error e when it is not an integer
IntHd(in, p, w, sgd) == IF ~Has(in, p + 1, w) THEN EOF(p)
                        ELSE Ok(AnyInt(IF sgd THEN FromSigned(Field(in, p + 1, w)) ELSE FromUnsigned(Field(in, p + 1, w))),
                                p + 1 + w)
DeInt(in, p, e) == IF ~Has(in, p, 1) THEN EOF(p)
                ELSE LET c == in[p] IN
                     CASE c <= 127 -> Ok(AnyInt(<<0>> \o Mag(c)), p + 1)
                       [] c >= 224 -> Ok(AnyInt(<<1>> \o Mag(256 - c)), p + 1)
                       [] c = 204 -> IntHd(in, p, 1, FALSE) [] c = 205 -> IntHd(in, p, 2, FALSE)
                       [] c = 206 -> IntHd(in, p, 4, FALSE) [] c = 207 -> IntHd(in, p, 8, FALSE)
                       [] c = 208 -> IntHd(in, p, 1, TRUE)  [] c = 209 -> IntHd(in, p, 2, TRUE)
                       [] c = 210 -> IntHd(in, p, 4, TRUE)  [] c = 211 -> IntHd(in, p, 8, TRUE)
                       [] OTHER -> Err(e, p)
DeFloat(in, p, k) ==
    IF ~Has(in, p, 1) THEN EOF(p)
    ELSE LET c == in[p] mk(b) == IF k = "f32" THEN F32V(b) ELSE F64V(b) IN
         CASE c = 202 -> IF ~Has(in, p + 1, 4) THEN EOF(p)
                         ELSE LET b == Field(in, p + 1, 4) IN Ok(mk(IF k = "f32" THEN b ELSE F32ToF64(b)), p + 5)
           [] c = 203 -> IF ~Has(in, p + 1, 8) THEN EOF(p)
                         ELSE LET b == Field(in, p + 1, 8) IN Ok(mk(IF k = "f64" THEN b ELSE F64ToF32(b)), p + 9)
           [] c = 192 -> Ok(mk(<<>>), p + 1)
           [] OTHER -> LET r == DeInt(in, p, "ExpectedNumber") IN
                       IF r.e # "" THEN r
                       ELSE Ok(mk(IF k = "f32" THEN IntToF32(r.v.b) ELSE IntToF64(r.v.b)), r.p)
\* an identifier of a field or variant
DeIdent(in, p) == IF ~Has(in, p, 1) THEN EOF(p)
                  ELSE LET c == in[p] IN
                       CASE c <= 127 \/ c \in {204, 205, 206} -> DeInt(in, p, "ExpectedInteger")
                         [] c \in 160..191 \/ c \in {217, 218, 219} -> DeStr(in, p)
                         [] OTHER -> Err("ExpectedIdentifier", p)

\* skip one item: number of items still to skip, counted exactly
RECURSIVE MpSkipN(_, _, _)
MpSkipN(in, p, todo) ==
    IF todo = 0 THEN Ok(UnitV, p)
    ELSE IF ~Has(in, p, 1) THEN EOF(p)
    ELSE LET c == in[p]
             raw(n) == IF Has(in, p + 1, n) THEN MpSkipN(in, p + 1 + n, todo - 1) ELSE EOF(p)
             \* a header of w bytes announcing a body of that many bytes plus x
             blob(w, x) == LET h == HdLen(in, p + 1, w) IN
                           IF h.e # "" THEN EOF(p)
                           ELSE IF h.n > Len(in) \/ ~Has(in, h.p, h.n + x) THEN EOF(p)
                           ELSE MpSkipN(in, h.p + h.n + x, todo - 1)
             \* n items follow, f times: when they cannot all be there the input ends too early,
             \* unless a reserved code comes first; so the count is cut to more than the input can hold
             many(n, q, f) == MpSkipN(in, q, todo - 1 + f * (IF n > Len(in) THEN Len(in) + 1 ELSE n))
             hdr(w, f) == LET h == HdLen(in, p + 1, w) IN IF h.e # "" THEN EOF(p) ELSE many(h.n, h.p, f)
         IN CASE c <= 127 \/ c >= 224 \/ c \in {192, 194, 195} -> raw(0)
              [] c \in 128..143 -> many(c - 128, p + 1, 2)
              [] c \in 144..159 -> many(c - 144, p + 1, 1)
              [] c \in 160..191 -> raw(c - 160)
              [] c = 193 -> Err("ReservedCode", p)
              [] c \in {196, 217} -> blob(1, 0) [] c \in {197, 218} -> blob(2, 0) [] c \in {198, 219} -> blob(4, 0)
              [] c = 199 -> blob(1, 1) [] c = 200 -> blob(2, 1) [] c = 201 -> blob(4, 1)
              [] c \in {204, 208} -> raw(1) [] c \in {205, 209} -> raw(2)
              [] c \in {202, 206, 210} -> raw(4) [] c \in {203, 207, 211} -> raw(8)
              [] c = 212 -> raw(2) [] c = 213 -> raw(3) [] c = 214 -> raw(5) [] c = 215 -> raw(9) [] c = 216 -> raw(17)
              [] c = 220 -> hdr(2, 1) [] c = 221 -> hdr(4, 1) [] c = 222 -> hdr(2, 2) [] OTHER -> hdr(4, 2)
MpSkip(in, p) == MpSkipN(in, p, 1)

RECURSIVE MpDe(_, _, _)
RECURSIVE DeSeqN(_, _, _, _, _)
RECURSIVE DeTupN(_, _, _, _, _, _)
RECURSIVE DeMapN(_, _, _, _, _, _)
RECURSIVE DePart(_, _, _, _, _, _)
RECURSIVE DeFields(_, _, _, _, _, _)
RECURSIVE DeFieldSeq(_, _, _, _, _, _)
\* n elements of one shape
DeSeqN(sh, in, p, n, acc) ==
    IF n = 0 THEN Ok(Wrap("seq", acc), p)
    ELSE LET r == MpDe(sh, in, p) IN IF r.e # "" THEN r ELSE DeSeqN(sh, in, r.p, n - 1, Append(acc, r.v))
\* the elements cs[j..], n still announced
DeTupN(k, cs, in, p, n, acc) ==
    LET j == Len(acc) + 1 IN
    IF j > Len(cs) THEN (IF n = 0 THEN Ok(Wrap(k, acc), p) ELSE Err("TrailingElements", p))
    ELSE IF n = 0 THEN Err("DeserializeError", p)
    ELSE LET r == MpDe(cs[j], in, p) IN IF r.e # "" THEN r ELSE DeTupN(k, cs, in, r.p, n - 1, Append(acc, r.v))
DeMapN(ks, vs, in, p, n, acc) ==
    IF n = 0 THEN Ok(Wrap("map", acc), p)
    ELSE LET r == MpDe(ks, in, p) IN
         IF r.e # "" THEN r
         ELSE LET s == MpDe(vs, in, r.p) IN
              IF s.e # "" THEN s ELSE DeMapN(ks, vs, in, s.p, n - 1, acc \o <<r.v, s.v>>)
\* at most t entries (each as many items as c[1] has children) of the n announced; the hint is exact
HintV(n) == SomeV(IntV("u64", IntZ(n)))
DePart(sh, in, p, n, t, acc) ==
    IF t = 0 THEN (IF n = 0 THEN Ok(Wrap("seq", acc), p) ELSE Err("TrailingElements", p))
    ELSE IF n = 0 THEN Ok(PartEnd(sh, acc), p)
    ELSE LET r == MpDe(sh.c[1].c[1], in, p) IN
         IF r.e # "" THEN r
         ELSE IF sh.c[1].k = "seq" THEN DePart(sh, in, r.p, n - 1, t - 1, acc \o <<r.v, HintV(n - 1)>>)
         ELSE LET s == MpDe(sh.c[1].c[2], in, r.p) IN
              IF s.e # "" THEN s ELSE DePart(sh, in, s.p, n - 1, t - 1, acc \o <<r.v, s.v, HintV(n - 1)>>)
\* derived struct visitor reading a map
DeFields(sh, in, p, n, acc, k) ==
    IF n = 0 THEN (IF StructComplete(sh.c, acc) THEN Ok(Wrap(k, StructFields(sh.c, acc)), p) ELSE Err("DeserializeError", p))
    ELSE LET id == DeIdent(in, p) IN
         IF id.e # "" THEN id
         ELSE LET j == IdentIndex(sh.c, id.v) IN
              IF j = 0
              THEN IF sh.n = 1 THEN Err("DeserializeError", id.p)
                   ELSE LET s == MpSkip(in, id.p) IN IF s.e # "" THEN s ELSE DeFields(sh, in, s.p, n - 1, acc, k)
              ELSE IF acc[j] # <<>> THEN Err("DeserializeError", id.p)
              ELSE LET r == MpDe(sh.c[j].c[1], in, id.p) IN
                   IF r.e # "" THEN r ELSE DeFields(sh, in, r.p, n - 1, [acc EXCEPT ![j] = <<r.v>>], k)
\* ... reading an array
DeFieldSeq(sh, in, p, n, acc, k) ==
    LET j == Len(acc) + 1 IN
    IF j > Len(sh.c)
    THEN IF n = 0 THEN Ok(Wrap(k, StructFields(sh.c, acc)), p) ELSE Err("TrailingElements", p)
    ELSE IF n = 0
    THEN IF sh.c[j].n = 1 THEN DeFieldSeq(sh, in, p, n, Append(acc, <<DefaultOf(sh.c[j].c[1])>>), k)
         ELSE Err("DeserializeError", p)
    ELSE LET r == MpDe(sh.c[j].c[1], in, p) IN
         IF r.e # "" THEN r ELSE DeFieldSeq(sh, in, r.p, n - 1, Append(acc, <<r.v>>), k)
DeStruct(sh, in, p, k) ==
    LET m == MapHd(in, p, "no") IN
    IF m.e = "" THEN DeFields(sh, in, m.p, m.n, [j \in 1..Len(sh.c) |-> <<>>], k)
    ELSE IF m.e = "UnexpectedEof" THEN EOF(p)
    ELSE LET a == ArrHd(in, p, "ExpectedStruct") IN
         IF a.e # "" THEN Err(a.e, p) ELSE DeFieldSeq(sh, in, a.p, a.n, <<>>, k)
DeTuple(k, cs, in, p) == LET a == ArrHd(in, p, "ExpectedArray") IN
                         IF a.e # "" THEN Err(a.e, p) ELSE DeTupN(k, cs, in, a.p, a.n, <<>>)
VarV(var, j, r) == [r EXCEPT !.v = [r.v EXCEPT !.k = var.k, !.i = j - 1, !.b = var.b]]
DeEnum(sh, in, p) ==
    IF ~Has(in, p, 1) THEN EOF(p)
    ELSE LET wrapped == in[p] = 129
             id == DeIdent(in, IF wrapped THEN p + 1 ELSE p)
         IN IF id.e # "" THEN id
            ELSE LET j == IdentIndex(sh.c, id.v) IN
                 IF j = 0 THEN Err("DeserializeError", id.p)
                 ELSE LET var == sh.c[j] IN
                      IF (var.k = "uvar") = wrapped THEN Err("InvalidType", id.p)
                      ELSE LET r == CASE var.k = "uvar" -> Ok(UnitV, id.p)
                                      [] var.k = "nvar" -> LET x == MpDe(var.c[1], in, id.p)
                                                           IN IF x.e # "" THEN x ELSE Ok(Wrap("nvar", <<x.v>>), x.p)
                                      [] var.k = "tvar" -> DeTuple("tvar", var.c, in, id.p)
                                      [] OTHER -> DeStruct(var, in, id.p, "svar")
                           IN IF r.e # "" THEN r ELSE VarV(var, j, r)
AnyS == Leaf("any")
DeAny(in, p) ==
    IF ~Has(in, p, 1) THEN EOF(p)
    ELSE LET c == in[p] IN
         CASE c = 192 -> Ok(UnitV, p + 1)
           [] c = 193 -> Err("ReservedCode", p)
           [] c \in {194, 195} -> Ok(BoolV(c = 195), p + 1)
           [] c \in 128..143 \/ c \in {222, 223} -> LET h == MapHd(in, p, "") IN IF h.e # "" THEN Err(h.e, p)
                                                    ELSE DeMapN(AnyS, AnyS, in, h.p, h.n, <<>>)
           [] c \in 144..159 \/ c \in {220, 221} -> LET h == ArrHd(in, p, "") IN IF h.e # "" THEN Err(h.e, p)
                                                    ELSE DeSeqN(AnyS, in, h.p, h.n, <<>>)
           [] c \in 160..191 \/ c \in 217..219 -> DeStr(in, p)
           [] c \in 196..198 -> DeBin(in, p)
           [] c \in 199..201 \/ c \in 212..216 -> Err("UnsupportedExt", p)
           [] c = 202 -> DeFloat(in, p, "f32")
           [] c = 203 -> DeFloat(in, p, "f64")
           [] OTHER -> DeInt(in, p, "")

MpDe(sh, in, p) ==
    CASE sh.k = "bool" -> IF ~Has(in, p, 1) THEN EOF(p)
                          ELSE IF in[p] \in {194, 195} THEN Ok(BoolV(in[p] = 195), p + 1) ELSE Err("InvalidType", p)
      [] sh.k \in IntKinds -> LET r == DeInt(in, p, "ExpectedInteger") IN
                              IF r.e # "" THEN r
                              ELSE IF InRange(sh.k, r.v.b) THEN Ok(IntV(sh.k, r.v.b), r.p) ELSE Err("InvalidInteger", r.p)
      [] sh.k \in {"f32", "f64"} -> DeFloat(in, p, sh.k)
      [] sh.k = "char" -> LET r == DeStr(in, p) IN
                          IF r.e # "" THEN r
                          ELSE IF IsOneChar(r.v.b) THEN Ok(TextV("char", r.v.b), r.p) ELSE Err("InvalidLength", r.p)
      [] sh.k \in {"str", "string"} -> DeStr(in, p)
      [] sh.k \in {"bytes", "bytebuf"} -> DeBin(in, p)
      [] sh.k \in {"unit", "ustruct"} -> IF ~Has(in, p, 1) THEN EOF(p)
                                         ELSE IF in[p] = 192 THEN Ok(Leaf(sh.k), p + 1) ELSE Err("ExpectedNil", p)
      [] sh.k = "opt" -> IF ~Has(in, p, 1) THEN EOF(p)
                         ELSE IF in[p] = 192 THEN Ok(NoneV, p + 1)
                         ELSE LET r == MpDe(sh.c[1], in, p) IN IF r.e # "" THEN r ELSE Ok(SomeV(r.v), r.p)
      [] sh.k = "nstruct" -> LET r == MpDe(sh.c[1], in, p) IN IF r.e # "" THEN r ELSE Ok(Wrap("nstruct", <<r.v>>), r.p)
      [] sh.k = "seq" -> LET a == ArrHd(in, p, "ExpectedArray") IN
                         IF a.e # "" THEN Err(a.e, p) ELSE DeSeqN(sh.c[1], in, a.p, a.n, <<>>)
      [] sh.k \in {"tuple", "tstruct"} -> DeTuple(sh.k, sh.c, in, p)
      [] sh.k = "map" -> LET m == MapHd(in, p, "ExpectedMap") IN
                         IF m.e # "" THEN Err(m.e, p) ELSE DeMapN(sh.c[1], sh.c[2], in, m.p, m.n, <<>>)
      [] sh.k = "struct" -> DeStruct(sh, in, p, "struct")
      [] sh.k = "enum" -> DeEnum(sh, in, p)
      [] sh.k = "any" -> DeAny(in, p)
      [] sh.k = "hr" -> LET r == MpDe(Leaf("bool"), in, p) IN IF r.e # "" THEN r ELSE Ok(BoolV(FALSE), r.p)
      [] sh.k = "custom" -> LET r == MpDe(sh.c[1], in, p) IN IF r.e # "" THEN r ELSE Res("DeserializeError", TextV("msg", sh.b), r.p)
      [] sh.k = "part" -> LET a == IF sh.c[1].k = "seq" THEN ArrHd(in, p, "ExpectedArray") ELSE MapHd(in, p, "ExpectedMap") IN
                          IF a.e # "" THEN Err(a.e, p) ELSE DePart(sh, in, a.p, a.n, sh.n, <<HintV(a.n)>>)
      [] sh.k = "ign" -> MpSkip(in, p)
      [] OTHER -> Err("DeserializeError", p)
=============================================================================
