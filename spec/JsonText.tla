-------------------------------- MODULE JsonText --------------------------------
(* JSON: the serializer with its four byte flavors, key rules, the in-place decoder as a function of the text,      *)
(* and an independent recogniser of RFC 8259 text.                                                                  *)
(*                                                                                                                  *)
(* The relation between decimal text and floats is a parameter: ft is a sequence of records                         *)
(*   [l |-> lexeme, d |-> f64 bits or <<>>, s |-> f32 bits or <<>>]       text -> float (<<>>: not a float)          *)
(* and fs a sequence of records                                                                                     *)
(*   [b |-> bits, dg |-> shortest digits, n |-> n]                        float -> 0.dg * 10^n                        *)
EXTENDS Data

ArrB == 0   HexB == 1   B64B == 2   PassB == 3                 \* byte flavors of the serializer
NopeR == 0  HexR == 1   B64R == 2                              \* byte flavors of the reader

QU == 34  BS == 92  CO == 44  LB == 91  RB == 93  LC == 123  RC == 125  CL == 58

T_true == <<116,114,117,101>>   T_false == <<102,97,108,115,101>>   T_null == <<110,117,108,108>>

-----------------------------------------------------------------------------
(* Serialization *)

EscOf(c) == CASE c = 34 -> <<92,34>> [] c = 92 -> <<92,92>>
              [] c = 8 -> <<92,98>> [] c = 9 -> <<92,116>> [] c = 10 -> <<92,110>> [] c = 12 -> <<92,102>> [] c = 13 -> <<92,114>>
              [] c < 32 -> <<92,117,48,48>> \o Hex2(c)
              [] OTHER -> <<c>>
Escaped(b) == IF \A j \in 1..Len(b) : b[j] >= 32 /\ b[j] # 34 /\ b[j] # 92 THEN b
              ELSE Cat([j \in 1..Len(b) |-> EscOf(b[j])])
Quoted(b) == <<QU>> \o Escaped(b) \o <<QU>>

B64Sym == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
            97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
            48,49,50,51,52,53,54,55,56,57,43,47>>
S64(n) == B64Sym[n + 1]
B64Group(g) == CASE Len(g) = 3 -> <<S64(g[1] \div 4), S64((g[1] % 4) * 16 + g[2] \div 16),
                                    S64((g[2] % 16) * 4 + g[3] \div 64), S64(g[3] % 64)>>
                 [] Len(g) = 2 -> <<S64(g[1] \div 4), S64((g[1] % 4) * 16 + g[2] \div 16), S64((g[2] % 16) * 4)>>
                 [] OTHER -> <<S64(g[1] \div 4), S64((g[1] % 4) * 16)>>
\* whole groups, then what is left
B64Enc(b) == LET g == Len(b) \div 3 IN
             [j \in 1..(4 * g) |-> B64Group(SubSeq(b, 3 * ((j - 1) \div 4) + 1, 3 * ((j - 1) \div 4) + 3))[((j - 1) % 4) + 1]]
             \o (IF 3 * g = Len(b) THEN <<>> ELSE B64Group(SubSeq(b, 3 * g + 1, Len(b))))
B64Pad(b) == (3 - (Len(b) % 3)) % 3
HexEnc(b) == [j \in 1..(2 * Len(b)) |-> Hex2(b[(j + 1) \div 2])[2 - (j % 2)]]

\* ECMAScript Number::toString for a finite number with digits dg and value 0.dg * 10^n
FloatText(neg, dg, n) ==
    LET k == Len(dg)
        x == n - 1
        ex == (IF x < 0 THEN <<101, 45>> \o NatDigits(-x) ELSE <<101, 43>> \o NatDigits(x))
        t == IF k <= n /\ n <= 21 THEN dg \o Rep(48, n - k)
             ELSE IF 0 < n /\ n <= 21 THEN SubSeq(dg, 1, n) \o <<46>> \o SubSeq(dg, n + 1, k)
             ELSE IF -6 < n /\ n <= 0 THEN <<48, 46>> \o Rep(48, -n) \o dg
             ELSE IF k = 1 THEN dg \o ex
             ELSE <<dg[1], 46>> \o SubSeq(dg, 2, k) \o ex
    IN (IF neg THEN <<45>> ELSE <<>>) \o t
JsFloat(v, fs) == IF IsNonFin(v) THEN Out("", T_null)
                  ELSE IF (v.k = "f32" /\ IsZero32(v.b)) \/ (v.k = "f64" /\ IsZero64(v.b)) THEN Out("", <<48>>)
                  ELSE LET m == SelectInSeq(fs, LAMBDA x : x.b = v.b)
                       IN IF m = 0 THEN Out("ENV", <<>>) ELSE Out("", FloatText(v.b[1] >= 128, fs[m].dg, fs[m].n))

\* what the driver's own codecs (harness/src/codec.rs, written as a user would) make of bytes: two letters a..p per byte,
\* and an object written through the serializer
Letters(b) == [j \in 1..(2 * Len(b)) |-> 97 + (IF j % 2 = 1 THEN b[(j + 1) \div 2] \div 16 ELSE b[j \div 2] % 16)]
UserB == 4
UserObjB == 5
T_lenkey == <<123, 34, 110, 34, 58>>                                \* {"n":
T_xkey == <<44, 34, 120, 34, 58, 34>>                               \* ,"x":"
JsBytes(b, fl) ==
    CASE fl = ArrB -> <<LB>> \o Cat([j \in 1..Len(b) |-> (IF j > 1 THEN <<CO>> ELSE <<>>) \o NatDigits(b[j])]) \o <<RB>>
      [] fl = HexB -> <<QU>> \o HexEnc(b) \o <<QU>>
      [] fl = B64B -> <<QU>> \o B64Enc(b) \o <<QU>>
      [] fl = UserB -> <<QU>> \o Letters(b) \o <<QU>>
      [] fl = UserObjB -> T_lenkey \o NatDigits(Len(b)) \o T_xkey \o Letters(b) \o <<QU, RC>>
      [] OTHER -> b

RECURSIVE JsSer(_, _, _)
RECURSIVE JsKey(_)
RECURSIVE JsItems(_, _, _, _, _)
RECURSIVE JsEntries(_, _, _, _, _)
RECURSIVE JsFields(_, _, _, _, _, _)
JsItems(c, j, o, fl, fs) ==
    IF j > Len(c) THEN Out("", Append(o, RB))
    ELSE LET r == JsSer(c[j], fl, fs) o2 == IF j > 1 THEN Append(o, CO) ELSE o
         IN IF r.e # "" THEN Out(r.e, o2 \o r.o) ELSE JsItems(c, j + 1, o2 \o r.o, fl, fs)
JsKey(v) ==
    CASE v.k \in IntKinds -> Out("", <<QU>> \o DecText(v.b) \o <<QU>>)
      [] v.k = "bool" -> Out("", <<QU>> \o (IF v.n = 1 THEN T_true ELSE T_false) \o <<QU>>)
      [] v.k = "hr" -> Out("", <<QU>> \o T_true \o <<QU>>)
      [] v.k \in {"str", "char", "uvar"} -> Out("", Quoted(v.b))
      [] v.k = "cstr" -> IF v.n = 1 THEN Out("FormatError", <<QU>> \o Escaped(CstrText(v))) ELSE Out("", Quoted(CstrText(v)))
      [] v.k = "nstruct" -> JsKey(v.c[1])
      [] v.k \in {"fail", "i128"} -> Out("SerializeError", <<>>)
      [] OTHER -> Out("InvalidKeyType", <<>>)
JsEntries(c, j, o, fl, fs) ==
    IF j > Len(c) THEN Out("", Append(o, RC))
    ELSE LET k == JsKey(c[j]) o2 == (IF j > 1 THEN Append(o, CO) ELSE o) \o k.o
         IN IF k.e # "" THEN Out(k.e, o2)
            ELSE LET r == JsSer(c[j+1], fl, fs) o3 == Append(o2, CL) \o r.o
                 IN IF r.e # "" THEN Out(r.e, o3) ELSE JsEntries(c, j + 2, o3, fl, fs)
JsFields(c, j, first, o, fl, fs) ==
    IF j > Len(c) THEN Out("", Append(o, RC))
    ELSE IF c[j].k = "skip" THEN JsFields(c, j + 1, first, o, fl, fs)
    ELSE LET r == JsSer(c[j].c[1], fl, fs)
             o2 == (IF first THEN o ELSE Append(o, CO)) \o Quoted(c[j].b) \o <<CL>> \o r.o
         IN IF r.e # "" THEN Out(r.e, o2) ELSE JsFields(c, j + 1, FALSE, o2, fl, fs)
\* a one-entry object {"name":content}
Variant(v, r) == IF r.e # "" THEN Out(r.e, <<LC>> \o Quoted(v.b) \o <<CL>> \o r.o)
                 ELSE Out("", <<LC>> \o Quoted(v.b) \o <<CL>> \o r.o \o <<RC>>)

JsSer(v, fl, fs) ==
    CASE v.k = "bool" -> Out("", IF v.n = 1 THEN T_true ELSE T_false)
      [] v.k \in IntKinds -> Out("", DecText(v.b))
      [] v.k \in {"f32", "f64"} -> JsFloat(v, fs)
      [] v.k \in {"char", "str", "uvar"} -> Out("", Quoted(v.b))
      [] v.k = "bytes" -> Out("", JsBytes(v.b, fl))
      [] v.k = "cstr" -> IF v.n = 1 THEN Out("FormatError", <<QU>> \o Escaped(CstrText(v))) ELSE Out("", Quoted(CstrText(v)))
      [] v.k \in {"none", "unit", "ustruct"} -> Out("", T_null)
      [] v.k \in {"some", "nstruct"} -> JsSer(v.c[1], fl, fs)
      [] v.k = "nvar" -> Variant(v, JsSer(v.c[1], fl, fs))
      [] v.k \in {"seq", "tuple", "tstruct"} -> JsItems(v.c, 1, <<LB>>, fl, fs)
      [] v.k = "tvar" -> Variant(v, JsItems(v.c, 1, <<LB>>, fl, fs))
      [] v.k = "map" -> JsEntries(v.c, 1, <<LC>>, fl, fs)
      [] v.k = "struct" -> JsFields(v.c, 1, TRUE, <<LC>>, fl, fs)
      [] v.k = "svar" -> Variant(v, JsFields(v.c, 1, TRUE, <<LC>>, fl, fs))
      [] v.k = "hr" -> Out("", T_true)
      [] OTHER -> Out("SerializeError", <<>>)

-----------------------------------------------------------------------------
(* Lexical level of decoding *)

EOF(p) == Err("UnexpectedEof", p)
IsWs(c) == c \in {32, 9, 10, 13}
RECURSIVE Ws(_, _)
Ws(in, p) == IF p <= Len(in) /\ IsWs(in[p]) THEN Ws(in, p + 1) ELSE p
AtEnd(in, p) == p > Len(in)
\* the characters of w must follow at p
Token(in, p, w, v) == IF p + Len(w) - 1 > Len(in) THEN EOF(p)
                      ELSE IF At(in, p, w) THEN Ok(v, p + Len(w)) ELSE Err("ExpectedToken", p)

IsNumCh(c) == c \in 48..57 \/ c \in {43, 45, 46, 101, 69}
RECURSIVE NumEnd(_, _)
NumEnd(in, p) == IF p <= Len(in) /\ IsNumCh(in[p]) THEN NumEnd(in, p + 1) ELSE p

UnsignedAt(k, in, p) ==                       \* whitespace then an unsigned integer of kind k
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = 45 THEN Err("InvalidNumber", q)
    ELSE IF in[q] = 48 THEN Ok(IntV(k, IntZ(0)), q + 1)
    ELSE IF ~IsDigit(in[q]) THEN Err("InvalidType", q)
    ELSE LET e == RunDigits(in, q) m == DigitsMag(SubSeq(in, q, e - 1)) IN
         IF m = <<>> THEN Err("InvalidNumber", q)
         ELSE IF InRange(k, <<0>> \o m) THEN Ok(IntV(k, <<0>> \o m), e) ELSE Err("InvalidNumber", q)
SignedAt(k, in, p) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE LET neg == in[q] = 45 s == IF neg THEN q + 1 ELSE q IN
         IF AtEnd(in, s) THEN EOF(s)
         ELSE IF in[s] = 48 THEN Ok(IntV(k, IntZ(0)), s + 1)
         ELSE IF ~IsDigit(in[s]) THEN Err("InvalidType", s)
         ELSE LET e == RunDigits(in, s) m == DigitsMag(SubSeq(in, s, e - 1)) z == <<IF neg THEN 1 ELSE 0>> \o m IN
              IF m = <<>> THEN Err("InvalidNumber", s)
              ELSE IF InRange(k, z) THEN Ok(IntV(k, z), e) ELSE Err("InvalidNumber", s)
IntAt(k, in, p) == IF Signed(k) THEN SignedAt(k, in, p) ELSE UnsignedAt(k, in, p)

\* the float denoted by the lexeme in[p..e-1]
LexFloat(k, in, p, e, ft) ==
    IF e = p THEN Err("InvalidNumber", p)
    ELSE LET l == SubSeq(in, p, e - 1) m == SelectInSeq(ft, LAMBDA x : x.l = l) IN
         IF m = 0 THEN Err("ENV", p)
         ELSE LET b == IF k = "f32" THEN ft[m].s ELSE ft[m].d IN
              IF b = <<>> THEN Err("InvalidNumber", p) ELSE Ok(IF k = "f32" THEN F32V(b) ELSE F64V(b), e)
FloatAt(k, in, p, ft) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = 110 THEN Token(in, q + 1, <<117,108,108>>, IF k = "f32" THEN F32V(<<>>) ELSE F64V(<<>>))
    ELSE LexFloat(k, in, q, NumEnd(in, q), ft)

\* a number met by self-describing decoding: integers exactly, everything else (and integers beyond 64 bits) as a float
AnyNumAt(in, p, ft, fk) ==
    LET e == NumEnd(in, p)
        frac == \E j \in p..(e-1) : in[j] \in {46, 101, 69}
        neg == in[p] = 45
        d == IF neg THEN p + 1 ELSE p
        plain == d < e /\ \A j \in d..(e-1) : IsDigit(in[j])
        m == DigitsMag(SubSeq(in, d, e - 1))
        z == <<IF neg THEN 1 ELSE 0>> \o m
    IN IF ~frac /\ plain /\ m # <<>> /\ InRange(IF neg THEN "i64" ELSE "u64", z) THEN Ok(AnyInt(z), e)
       ELSE LexFloat(fk, in, p, e, ft)

\* the first position from p on that is not a plain string character (in steps of 64, for the long ones)
Block == 64
Plain(c) == c >= 32 /\ c # QU /\ c # BS
RECURSIVE PlainEnd(_, _)
PlainEnd(in, p) == IF p > Len(in) THEN p
                   ELSE IF ~Plain(in[p]) THEN p
                   ELSE IF p + Block <= Len(in) /\ \A j \in p..(p + Block) : Plain(in[j]) THEN PlainEnd(in, p + Block)
                   ELSE PlainEnd(in, p + 1)
Hex4(in, p) == IF \E j \in p..(p+3) : HexVal(in[j]) < 0 THEN -1
               ELSE ((HexVal(in[p]) * 16 + HexVal(in[p+1])) * 16 + HexVal(in[p+2])) * 16 + HexVal(in[p+3])
\* string content after the opening quote: unescaped bytes, not checked for UTF-8
RECURSIVE StrAt(_, _, _)
StrAt(in, p, acc) ==
    LET e == PlainEnd(in, p)
        a == IF e > p THEN acc \o SubSeq(in, p, e - 1) ELSE acc
    IN IF AtEnd(in, e) THEN EOF(e)
       ELSE IF in[e] = QU THEN Ok(TextV("bytes", a), e + 1)
       ELSE IF in[e] # BS THEN Err("StringControlChar", e)
       ELSE IF AtEnd(in, e + 1) THEN EOF(e)
       ELSE LET c == in[e+1] lit(x) == StrAt(in, e + 2, Append(a, x)) IN
            CASE c \in {34, 92, 47} -> lit(c)
              [] c = 98 -> lit(8) [] c = 102 -> lit(12) [] c = 110 -> lit(10) [] c = 114 -> lit(13) [] c = 116 -> lit(9)
              [] c = 117 -> IF e + 5 > Len(in) THEN EOF(e)
                            ELSE LET u == Hex4(in, e + 2) IN
                                 IF u < 0 THEN Err("InvalidEscapeSequence", e)
                                 ELSE IF u \notin 55296..57343 THEN StrAt(in, e + 6, a \o Utf8Enc(u))
                                 ELSE IF u >= 56320 THEN Err("InvalidUnicodeCodePoint", e)
                                 \* a high surrogate must be followed by an escaped low one
                                 ELSE IF AtEnd(in, e + 6) THEN EOF(e)
                                 ELSE IF in[e+6] # BS THEN Err("InvalidUnicodeCodePoint", e)
                                 ELSE IF AtEnd(in, e + 7) THEN EOF(e)
                                 ELSE IF in[e+7] # 117 THEN Err("InvalidUnicodeCodePoint", e)
                                 ELSE IF e + 11 > Len(in) THEN EOF(e)
                                 ELSE LET w == Hex4(in, e + 8) IN
                                      IF w < 0 THEN Err("InvalidEscapeSequence", e)
                                      ELSE IF w \notin 56320..57343 THEN Err("InvalidUnicodeCodePoint", e)
                                      ELSE StrAt(in, e + 12, a \o Utf8Enc(65536 + (u - 55296) * 1024 + (w - 56320)))
              [] OTHER -> Err("InvalidEscapeSequence", e)
StrBytesAt(in, p) == StrAt(in, p, <<>>)
TextAt(in, p) == LET r == StrAt(in, p, <<>>) IN
                 IF r.e # "" THEN r
                 ELSE IF IsUtf8(r.v.b) THEN Ok(TextV("str", r.v.b), r.p) ELSE Err("InvalidUnicodeCodePoint", r.p)
\* an ignored string: only its end is looked for
RECURSIVE SkipStr(_, _)
SkipStr(in, p) == LET e == PlainEnd(in, p) IN
                  IF AtEnd(in, e) THEN EOF(e)
                  ELSE IF in[e] = QU THEN Ok(UnitV, e + 1)
                  ELSE IF in[e] # BS THEN Err("StringControlChar", e)
                  ELSE IF AtEnd(in, e + 1) THEN EOF(e)
                  ELSE IF in[e+1] < 32 THEN Err("StringControlChar", e)
                  ELSE SkipStr(in, e + 2)

RECURSIVE HexAt(_, _, _)
HexAt(in, p, acc) ==
    IF p > Len(in) THEN EOF(p)
    ELSE IF p = Len(in) THEN (IF in[p] = QU THEN Ok(TextV("bytes", acc), p + 1) ELSE EOF(p))
    ELSE IF p + Block <= Len(in) /\ \A j \in p..(p + Block - 1) : HexVal(in[j]) >= 0
         THEN HexAt(in, p + Block, acc \o [j \in 1..(Block \div 2) |-> HexVal(in[p + 2*j - 2]) * 16 + HexVal(in[p + 2*j - 1])])
    ELSE IF HexVal(in[p]) >= 0
         THEN IF HexVal(in[p+1]) >= 0 THEN HexAt(in, p + 2, Append(acc, HexVal(in[p]) * 16 + HexVal(in[p+1])))
              ELSE Err("UnexpectedChar", p)
    ELSE IF in[p] = QU THEN Ok(TextV("bytes", acc), p + 1) ELSE Err("UnexpectedChar", p)

B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
IsB64(c) == B64Val(c) >= 0
RECURSIVE B64End(_, _)
B64End(in, p) == IF p > Len(in) THEN p
                 ELSE IF ~IsB64(in[p]) THEN p
                 ELSE IF p + Block <= Len(in) /\ \A j \in p..(p + Block) : IsB64(in[j]) THEN B64End(in, p + Block)
                 ELSE B64End(in, p + 1)
B64Un(g) == LET v(j) == B64Val(g[j]) IN
            CASE Len(g) = 4 -> <<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4, (v(3) % 4) * 64 + v(4)>>
              [] Len(g) = 3 -> <<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4>>
              [] Len(g) = 2 -> <<v(1) * 4 + v(2) \div 16>>
              [] OTHER -> <<>>
\* decoded bytes of a run of alphabet characters
B64Dec(s) == LET g == Len(s) \div 4 IN
             [j \in 1..(3 * g) |-> B64Un(SubSeq(s, 4 * ((j - 1) \div 3) + 1, 4 * ((j - 1) \div 3) + 4))[((j - 1) % 3) + 1]]
             \o B64Un(SubSeq(s, 4 * g + 1, Len(s)))
RECURSIVE EqEnd(_, _)
EqEnd(in, p) == IF p <= Len(in) /\ in[p] = 61 THEN EqEnd(in, p + 1) ELSE p
B64At(in, p) == LET e == B64End(in, p) f == EqEnd(in, e) IN
                IF AtEnd(in, f) THEN EOF(f)
                ELSE IF in[f] = QU THEN Ok(TextV("bytes", B64Dec(SubSeq(in, p, e - 1))), f + 1)
                ELSE Err("UnexpectedChar", f)

RECURSIVE QuoteAt(_, _)
QuoteAt(in, p) == IF AtEnd(in, p) THEN p ELSE IF in[p] = QU THEN p ELSE QuoteAt(in, p + 1)
\* the driver's own codec says InvalidLength to what is not its own
LettersAt(in, p) == LET e == QuoteAt(in, p) IN
                    IF AtEnd(in, e) THEN EOF(e)
                    ELSE IF (e - p) % 2 = 1 \/ \E j \in p..(e - 1) : in[j] \notin 97..112 THEN Err("InvalidLength", p)
                    ELSE Ok(TextV("bytes", [j \in 1..((e - p) \div 2) |-> (in[p + 2 * j - 2] - 97) * 16 + in[p + 2 * j - 1] - 97]), e + 1)

\* the driver's other codec: the first letter of a string tells what it is
FramedR == 6
CodecErrs == <<"UnexpectedEof", "InvalidEscapeSequence", "StringControlChar", "ExpectedColon", "ExpectedArrayCommaOrEnd", "ExpectedArrayEnd", "LeadingArrayComma", "TrailingArrayComma",
    "ExpectedObjectCommaOrEnd", "ExpectedObjectEnd", "LeadingObjectComma", "TrailingObjectComma", "ExpectedToken", "ExpectedNull", "ExpectedString", "ExpectedArray", "ExpectedObject", "ExpectedStruct",
    "ExpectedEnumValue", "ExpectedEnumObjectEnd", "InvalidNumber", "InvalidType", "InvalidUnicodeCodePoint", "KeyMustBeAString", "TrailingCharacters", "UnexpectedChar", "InvalidLength">>
FramedAt(in, p) ==
    IF AtEnd(in, p) THEN EOF(p)
    ELSE LET c == in[p] q == p + 1 IN
         CASE c = QU -> Res("DeserializeError", TextV("msg", <<110, 111, 32, 102, 114, 97, 109, 101>>), p)        \* no frame
           [] c = 114 -> LET e == QuoteAt(in, p) IN                              \* r: as it is, with the quote
                         IF AtEnd(in, e) THEN EOF(e) ELSE Ok(TextV("bytes", SubSeq(in, p, e)), e + 1)
           [] c = 101 -> IF AtEnd(in, q) THEN EOF(q)                              \* e: the error of that number
                         ELSE Err(IF in[q] \in 65..91 THEN CodecErrs[in[q] - 64] ELSE "UnexpectedChar", q)
           [] c = 115 -> StrBytesAt(in, q)
           [] c = 104 -> HexAt(in, q, <<>>)
           [] c = 98 -> B64At(in, q)
           [] c = 110 -> LET n == UnsignedAt("u16", in, q) IN                     \* n: that many bytes after the string
                         IF n.e # "" THEN n
                         ELSE IF AtEnd(in, n.p) THEN EOF(n.p)
                         ELSE IF in[n.p] # QU THEN Err("UnexpectedChar", n.p)
                         ELSE LET m == n.p + ToNat(MagOf(n.v.b)) IN
                              IF m > Len(in) THEN EOF(n.p + 1) ELSE Ok(TextV("bytes", SubSeq(in, n.p + 1, m)), m + 1)
           [] c = 116 -> Token(in, q, <<114, 117, 101, 34>>, TextV("bytes", <<>>))
           [] OTHER -> Err("UnexpectedChar", q)

RECURSIVE ByteArr(_, _, _)
ByteArr(in, p, acc) ==
    LET r == UnsignedAt("u8", in, p) IN
    IF r.e # "" THEN r
    ELSE LET a == Append(acc, r.v.b[9]) q == Ws(in, r.p) IN
         IF AtEnd(in, q) THEN EOF(q)
         ELSE IF in[q] = CO THEN ByteArr(in, q + 1, a)
         ELSE IF in[q] = RB THEN Ok(TextV("bytes", a), q + 1)
         ELSE Err("UnexpectedChar", q)
ByteArrAt(in, p) == LET q == Ws(in, p) IN
                    IF AtEnd(in, q) THEN EOF(q)
                    ELSE IF in[q] = RB THEN Ok(TextV("bytes", <<>>), q + 1) ELSE ByteArr(in, q, <<>>)

-----------------------------------------------------------------------------
(* Decoding.  E = [fl |-> reader flavor, ft |-> float table, fk |-> "f64" | "f32" for self-describing floats]        *)

\* the next element of an array / entry of an object: more = TRUE and the position of its first character
Nx(e, p, more) == [e |-> e, p |-> p, more |-> more]
NextItem(in, p, first, close, names) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN Nx("UnexpectedEof", q, FALSE)
    ELSE IF in[q] = close THEN Nx("", q, FALSE)
    ELSE IF in[q] = CO
         THEN IF first THEN Nx(names[1], q, FALSE)
              ELSE LET s == Ws(in, q + 1) IN
                   IF AtEnd(in, s) THEN Nx("UnexpectedEof", s, FALSE)
                   ELSE IF in[s] = close THEN Nx(names[2], s, FALSE) ELSE Nx("", s, TRUE)
    ELSE IF first THEN Nx("", q, TRUE) ELSE Nx(names[3], q, FALSE)
NextElem(in, p, first) == NextItem(in, p, first, RB, <<"LeadingArrayComma", "TrailingArrayComma", "ExpectedArrayCommaOrEnd">>)
NextEntry(in, p, first) ==
    LET x == NextItem(in, p, first, RC, <<"LeadingObjectComma", "TrailingObjectComma", "ExpectedObjectCommaOrEnd">>)
    IN IF x.more /\ in[x.p] # QU THEN Nx("KeyMustBeAString", x.p, FALSE) ELSE x
Colon(in, p) == LET q == Ws(in, p) IN
                IF AtEnd(in, q) THEN EOF(q) ELSE IF in[q] = CL THEN Ok(UnitV, q + 1) ELSE Err("ExpectedColon", q)
Close(in, p, c, e, v) == LET q == Ws(in, p) IN
                         IF AtEnd(in, q) THEN EOF(q) ELSE IF in[q] = c THEN Ok(v, q + 1) ELSE Err(e, q)

RECURSIVE JsDe(_, _, _, _)
RECURSIVE JsKeyDe(_, _, _, _)
RECURSIVE JSeq(_, _, _, _, _, _)
RECURSIVE JTup(_, _, _, _, _, _)
RECURSIVE JMap(_, _, _, _, _, _)
RECURSIVE JPart(_, _, _, _, _, _)
RECURSIVE JFields(_, _, _, _, _, _, _)
RECURSIVE JFieldSeq(_, _, _, _, _, _)
RECURSIVE JIgnSeq(_, _, _, _)
RECURSIVE JIgnMap(_, _, _, _)

JSeq(sh, in, p, first, acc, E) ==
    LET x == NextElem(in, p, first) IN
    IF x.e # "" THEN Err(x.e, x.p)
    ELSE IF ~x.more THEN Ok(Wrap("seq", acc), x.p + 1)
    ELSE LET r == JsDe(sh, in, x.p, E) IN
         IF r.e # "" THEN r ELSE JSeq(sh, in, r.p, FALSE, Append(acc, r.v), E)
\* exactly the elements cs
JTup(k, cs, in, p, acc, E) ==
    LET j == Len(acc) + 1 IN
    IF j > Len(cs) THEN Close(in, p, RB, "ExpectedArrayEnd", Wrap(k, acc))
    ELSE LET x == NextElem(in, p, acc = <<>>) IN
         IF x.e # "" THEN Err(x.e, x.p)
         ELSE IF ~x.more THEN Err("DeserializeError", x.p)
         ELSE LET r == JsDe(cs[j], in, x.p, E) IN
              IF r.e # "" THEN r ELSE JTup(k, cs, in, r.p, Append(acc, r.v), E)
JMap(sh, in, p, first, acc, E) ==
    LET x == NextEntry(in, p, first) IN
    IF x.e # "" THEN Err(x.e, x.p)
    ELSE IF ~x.more THEN Ok(Wrap("map", acc), x.p + 1)
    ELSE LET k == JsKeyDe(sh.c[1], in, x.p, E) IN
         IF k.e # "" THEN k
         ELSE LET c == Colon(in, k.p) IN
              IF c.e # "" THEN c
              ELSE LET r == JsDe(sh.c[2], in, c.p, E) IN
                   IF r.e # "" THEN r ELSE JMap(sh, in, r.p, FALSE, acc \o <<k.v, r.v>>, E)
\* at most t entries; the text does not say how many there are, so there is no hint
JPart(sh, in, p, t, acc, E) ==
    LET arr == sh.c[1].k = "seq" IN
    IF t = 0 THEN (IF arr THEN Close(in, p, RB, "ExpectedArrayEnd", Wrap("seq", acc))
                          ELSE Close(in, p, RC, "ExpectedObjectEnd", Wrap("seq", acc)))
    ELSE LET x == IF arr THEN NextElem(in, p, Len(acc) = 1) ELSE NextEntry(in, p, Len(acc) = 1) IN
         IF x.e # "" THEN Err(x.e, x.p)
         ELSE IF ~x.more THEN Ok(PartEnd(sh, acc), x.p + 1)
         ELSE IF arr THEN LET r == JsDe(sh.c[1].c[1], in, x.p, E) IN
                          IF r.e # "" THEN r ELSE JPart(sh, in, r.p, t - 1, acc \o <<r.v, NoneV>>, E)
         ELSE LET k == JsKeyDe(sh.c[1].c[1], in, x.p, E) IN
              IF k.e # "" THEN k
              ELSE LET c == Colon(in, k.p) IN
                   IF c.e # "" THEN c
                   ELSE LET r == JsDe(sh.c[1].c[2], in, c.p, E) IN
                        IF r.e # "" THEN r ELSE JPart(sh, in, r.p, t - 1, acc \o <<k.v, r.v, NoneV>>, E)
\* an ignored array / object
JIgnSeq(in, p, first, E) ==
    LET x == NextElem(in, p, first) IN
    IF x.e # "" THEN Err(x.e, x.p)
    ELSE IF ~x.more THEN Ok(UnitV, x.p + 1)
    ELSE LET r == JsDe(Leaf("ign"), in, x.p, E) IN IF r.e # "" THEN r ELSE JIgnSeq(in, r.p, FALSE, E)
JIgnMap(in, p, first, E) ==
    LET x == NextEntry(in, p, first) IN
    IF x.e # "" THEN Err(x.e, x.p)
    ELSE IF ~x.more THEN Ok(UnitV, x.p + 1)
    ELSE LET k == TextAt(in, x.p + 1) IN
         IF k.e # "" THEN k
         ELSE LET c == Colon(in, k.p) IN
              IF c.e # "" THEN c
              ELSE LET r == JsDe(Leaf("ign"), in, c.p, E) IN IF r.e # "" THEN r ELSE JIgnMap(in, r.p, FALSE, E)
JFields(sh, in, p, first, acc, k, E) ==
    LET x == NextEntry(in, p, first) IN
    IF x.e # "" THEN Err(x.e, x.p)
    ELSE IF ~x.more
    THEN IF StructComplete(sh.c, acc) THEN Ok(Wrap(k, StructFields(sh.c, acc)), x.p + 1) ELSE Err("DeserializeError", x.p)
    ELSE LET id == TextAt(in, x.p + 1) IN
         IF id.e # "" THEN id
         ELSE LET j == IndexOfName(sh.c, id.v.b, 1) IN
              IF j = 0 /\ sh.n = 1 THEN Err("DeserializeError", id.p)
              ELSE IF j # 0 /\ acc[j] # <<>> THEN Err("DeserializeError", id.p)
              ELSE LET c == Colon(in, id.p) IN
                   IF c.e # "" THEN c
                   ELSE LET r == JsDe(IF j = 0 THEN Leaf("ign") ELSE sh.c[j].c[1], in, c.p, E) IN
                        IF r.e # "" THEN r
                        ELSE JFields(sh, in, r.p, FALSE, IF j = 0 THEN acc ELSE [acc EXCEPT ![j] = <<r.v>>], k, E)
JFieldSeq(sh, in, p, acc, k, E) ==
    LET j == Len(acc) + 1 IN
    IF j > Len(sh.c) THEN Close(in, p, RB, "ExpectedArrayEnd", Wrap(k, StructFields(sh.c, acc)))
    ELSE LET x == NextElem(in, p, acc = <<>>) IN
         IF x.e # "" THEN Err(x.e, x.p)
         ELSE IF ~x.more
         THEN IF sh.c[j].n = 1 THEN JFieldSeq(sh, in, x.p, Append(acc, <<DefaultOf(sh.c[j].c[1])>>), k, E)
              ELSE Err("DeserializeError", x.p)
         ELSE LET r == JsDe(sh.c[j].c[1], in, x.p, E) IN
              IF r.e # "" THEN r ELSE JFieldSeq(sh, in, r.p, Append(acc, <<r.v>>), k, E)
JStruct(sh, in, p, k, E) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = LC THEN JFields(sh, in, q + 1, TRUE, [j \in 1..Len(sh.c) |-> <<>>], k, E)
    ELSE IF in[q] = LB THEN JFieldSeq(sh, in, q + 1, <<>>, k, E)
    ELSE Err("ExpectedStruct", q)
JTuple(k, cs, in, p, E) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = LB THEN JTup(k, cs, in, q + 1, <<>>, E) ELSE Err("ExpectedArray", q)
StrTok(in, p) == LET q == Ws(in, p) IN
                 IF AtEnd(in, q) THEN EOF(q) ELSE IF in[q] = QU THEN TextAt(in, q + 1) ELSE Err("ExpectedString", q)
VarV(var, j, r) == [r EXCEPT !.v = [r.v EXCEPT !.k = var.k, !.i = j - 1, !.b = var.b]]
\* a unit variant given by a string
JUnitVar(sh, in, p) ==
    LET id == StrTok(in, p) IN
    IF id.e # "" THEN id
    ELSE LET j == IndexOfName(sh.c, id.v.b, 1) IN
         IF j = 0 THEN Err("DeserializeError", id.p)
         ELSE IF sh.c[j].k # "uvar" THEN Err("InvalidType", id.p)
         ELSE VarV(sh.c[j], j, Ok(UnitV, id.p))
JEnum(sh, in, p, E) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = QU THEN JUnitVar(sh, in, q)
    ELSE IF in[q] # LC THEN Err("ExpectedEnumValue", q)
    ELSE LET id == StrTok(in, q + 1) IN
         IF id.e # "" THEN id
         ELSE LET j == IndexOfName(sh.c, id.v.b, 1) IN
              IF j = 0 THEN Err("DeserializeError", id.p)
              ELSE LET c == Colon(in, id.p) var == sh.c[j] IN
                   IF c.e # "" THEN c
                   ELSE IF var.k = "uvar" THEN Err("InvalidType", c.p)
                   ELSE LET r == CASE var.k = "nvar" -> LET x == JsDe(var.c[1], in, c.p, E)
                                                        IN IF x.e # "" THEN x ELSE Ok(Wrap("nvar", <<x.v>>), x.p)
                                   [] var.k = "tvar" -> JTuple("tvar", var.c, in, c.p, E)
                                   [] OTHER -> JStruct(var, in, c.p, "svar", E)
                        IN IF r.e # "" THEN r
                           ELSE LET f == Close(in, r.p, RC, "ExpectedEnumObjectEnd", UnitV) IN
                                IF f.e # "" THEN f ELSE VarV(var, j, Ok(r.v, f.p))

BoolAt(in, p) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = 116 THEN Token(in, q + 1, <<114,117,101>>, BoolV(TRUE))
    ELSE IF in[q] = 102 THEN Token(in, q + 1, <<97,108,115,101>>, BoolV(FALSE))
    ELSE Err("UnexpectedChar", q)
NullAt(in, p, v) ==
    LET q == Ws(in, p) IN
    IF AtEnd(in, q) THEN EOF(q)
    ELSE IF in[q] = 110 THEN Token(in, q + 1, <<117,108,108>>, v) ELSE Err("ExpectedNull", q)
AnyMapS == Nd("map", 0, 0, <<>>, <<Leaf("any"), Leaf("any")>>)
CharOf(r) == IF r.e # "" THEN r
             ELSE IF IsOneChar(r.v.b) THEN Ok(TextV("char", r.v.b), r.p) ELSE Err("InvalidLength", r.p)

JsDe(sh, in, p, E) ==
    CASE sh.k = "bool" -> BoolAt(in, p)
      [] sh.k \in IntKinds -> IntAt(sh.k, in, p)
      [] sh.k \in {"f32", "f64"} -> FloatAt(sh.k, in, p, E.ft)
      [] sh.k = "char" -> CharOf(StrTok(in, p))
      [] sh.k \in {"str", "string"} -> StrTok(in, p)
      [] sh.k \in {"bytes", "bytebuf"} ->
           LET q == Ws(in, p) IN
           IF AtEnd(in, q) THEN EOF(q)
           ELSE IF in[q] = QU THEN (CASE E.fl = NopeR -> StrBytesAt(in, q + 1)
                                      [] E.fl = HexR -> HexAt(in, q + 1, <<>>)
                                      [] E.fl = UserB -> LettersAt(in, q + 1)
                                      [] E.fl = FramedR -> FramedAt(in, q + 1)
                                      [] OTHER -> B64At(in, q + 1))
           ELSE IF in[q] = LB THEN ByteArrAt(in, q + 1)
           ELSE Err("UnexpectedChar", q)
      [] sh.k \in {"unit", "ustruct"} -> NullAt(in, p, Leaf(sh.k))
      [] sh.k = "opt" -> LET q == Ws(in, p) IN
                         IF AtEnd(in, q) THEN EOF(q)
                         ELSE IF in[q] = 110 THEN NullAt(in, q, NoneV)
                         ELSE LET r == JsDe(sh.c[1], in, q, E) IN IF r.e # "" THEN r ELSE Ok(SomeV(r.v), r.p)
      [] sh.k = "nstruct" -> LET r == JsDe(sh.c[1], in, p, E) IN IF r.e # "" THEN r ELSE Ok(Wrap("nstruct", <<r.v>>), r.p)
      [] sh.k = "seq" -> LET q == Ws(in, p) IN
                         IF AtEnd(in, q) THEN EOF(q)
                         ELSE IF in[q] = LB THEN JSeq(sh.c[1], in, q + 1, TRUE, <<>>, E) ELSE Err("ExpectedArray", q)
      [] sh.k \in {"tuple", "tstruct"} -> JTuple(sh.k, sh.c, in, p, E)
      [] sh.k = "map" -> LET q == Ws(in, p) IN
                         IF AtEnd(in, q) THEN EOF(q)
                         ELSE IF in[q] = LC THEN JMap(sh, in, q + 1, TRUE, <<>>, E) ELSE Err("ExpectedObject", q)
      [] sh.k = "struct" -> JStruct(sh, in, p, "struct", E)
      [] sh.k = "enum" -> JEnum(sh, in, p, E)
      [] sh.k = "hr" -> LET r == BoolAt(in, p) IN IF r.e # "" THEN r ELSE Ok(BoolV(TRUE), r.p)
      [] sh.k = "any" ->
           LET q == Ws(in, p) IN
           IF AtEnd(in, q) THEN EOF(q)
           ELSE LET c == in[q] IN
                CASE c = 110 -> NullAt(in, q, UnitV)
                  [] c \in {116, 102} -> BoolAt(in, q)
                  [] c = QU -> TextAt(in, q + 1)
                  [] c = 45 \/ IsDigit(c) -> AnyNumAt(in, q, E.ft, E.fk)
                  [] c = LB -> JSeq(sh, in, q + 1, TRUE, <<>>, E)
                  [] c = LC -> JMap(AnyMapS, in, q + 1, TRUE, <<>>, E)
                  [] OTHER -> Err("UnexpectedChar", q)
      [] sh.k = "part" -> LET q == Ws(in, p) arr == sh.c[1].k = "seq" IN
                          IF AtEnd(in, q) THEN EOF(q)
                          ELSE IF in[q] = (IF arr THEN LB ELSE LC) THEN JPart(sh, in, q + 1, sh.n, <<NoneV>>, E)
                          ELSE Err(IF arr THEN "ExpectedArray" ELSE "ExpectedObject", q)
      [] sh.k = "custom" -> LET r == JsDe(sh.c[1], in, p, E) IN IF r.e # "" THEN r ELSE Res("DeserializeError", TextV("msg", sh.b), r.p)
      [] sh.k = "ign" ->
           LET q == Ws(in, p) IN
           IF AtEnd(in, q) THEN EOF(q)
           ELSE LET c == in[q] IN
                CASE c = 110 -> NullAt(in, q, UnitV)
                  [] c \in {116, 102} -> LET r == BoolAt(in, q) IN IF r.e # "" THEN r ELSE Ok(UnitV, r.p)
                  [] c = QU -> SkipStr(in, q + 1)
                  [] c = 45 \/ IsDigit(c) -> Ok(UnitV, NumEnd(in, q))
                  [] c = LB -> JIgnSeq(in, q + 1, TRUE, E)
                  [] c = LC -> JIgnMap(in, q + 1, TRUE, E)
                  [] OTHER -> Err("UnexpectedChar", q)
      [] OTHER -> Err("DeserializeError", p)

\* object keys; p is at the opening quote
KeyEnd(in, r, e) == IF r.e # "" THEN r
                    ELSE IF AtEnd(in, r.p) THEN EOF(r.p)
                    ELSE IF in[r.p] = QU THEN Ok(r.v, r.p + 1) ELSE Err(e, r.p)
JsKeyDe(sh, in, p, E) ==
    CASE sh.k \in IntKinds -> KeyEnd(in, IntAt(sh.k, in, p + 1), "InvalidNumber")
      [] sh.k = "bool" -> KeyEnd(in, BoolAt(in, p + 1), "InvalidType")
      [] sh.k = "hr" -> LET r == KeyEnd(in, BoolAt(in, p + 1), "InvalidType") IN IF r.e # "" THEN r ELSE Ok(BoolV(TRUE), r.p)
      [] sh.k = "char" -> CharOf(TextAt(in, p + 1))
      [] sh.k \in {"str", "string", "any"} -> TextAt(in, p + 1)
      [] sh.k = "enum" -> JUnitVar(sh, in, p)
      [] sh.k = "nstruct" -> LET r == JsKeyDe(sh.c[1], in, p, E) IN IF r.e # "" THEN r ELSE Ok(Wrap("nstruct", <<r.v>>), r.p)
      [] sh.k \in {"bytes", "bytebuf"} -> LET r == TextAt(in, p + 1) IN IF r.e # "" THEN r ELSE Ok(TextV("bytes", r.v.b), r.p)
      [] sh.k = "ign" -> LET r == TextAt(in, p + 1) IN IF r.e # "" THEN r ELSE Ok(UnitV, r.p)
      [] OTHER -> LET r == TextAt(in, p + 1) IN IF r.e # "" THEN r ELSE Err("DeserializeError", r.p)

\* nothing but whitespace may follow the value
Ended(in, r) == IF r.e # "" THEN r
                ELSE IF AtEnd(in, Ws(in, r.p)) THEN r ELSE Err("TrailingCharacters", r.p)
JsFull(sh, in, E) == Ended(in, JsDe(sh, in, 1, E))

-----------------------------------------------------------------------------
(* An independent recogniser of RFC 8259 texts: position after the value at p, 0 when there is none.                 *)
(* loose: a number is any run of number characters, and the inside of strings only has to be free of control         *)
(* characters (what an ignored part of a text has to satisfy).                                                       *)
RECURSIVE WfStr(_, _, _)
WfStr(in, p, loose) ==
    IF p > Len(in) \/ in[p] < 32 THEN 0
    ELSE IF in[p] = QU THEN p + 1
    ELSE IF in[p] # BS
         THEN IF loose THEN WfStr(in, p + 1, loose)
              ELSE LET n == Utf8Len(in, p) IN IF n = 0 THEN 0 ELSE WfStr(in, p + n, loose)
    ELSE IF p = Len(in) \/ in[p+1] < 32 THEN 0
    ELSE IF loose THEN WfStr(in, p + 2, loose)
    ELSE IF in[p+1] \in {34, 92, 47, 98, 102, 110, 114, 116} THEN WfStr(in, p + 2, loose)
    ELSE IF in[p+1] # 117 \/ p + 5 > Len(in) THEN 0
    ELSE LET u == Hex4(in, p + 2) IN
         IF u < 0 \/ u \in 56320..57343 THEN 0
         ELSE IF u \notin 55296..56319 THEN WfStr(in, p + 6, loose)
         ELSE IF p + 11 > Len(in) THEN 0
         ELSE IF in[p+6] = BS /\ in[p+7] = 117 /\ Hex4(in, p + 8) \in 56320..57343 THEN WfStr(in, p + 12, loose) ELSE 0
WfNum(in, p, loose) ==
    IF loose THEN (LET e == NumEnd(in, p) IN IF e = p THEN 0 ELSE e)
    ELSE LET s == IF in[p] = 45 THEN p + 1 ELSE p
             i == IF s > Len(in) THEN 0
                  ELSE IF in[s] = 48 THEN s + 1
                  ELSE IF IsDigit(in[s]) THEN RunDigits(in, s) ELSE 0
             f == IF i = 0 THEN 0
                  ELSE IF i <= Len(in) /\ in[i] = 46
                       THEN LET e == RunDigits(in, i + 1) IN IF e = i + 1 THEN 0 ELSE e
                  ELSE i
         IN IF f = 0 THEN 0
            ELSE IF f <= Len(in) /\ in[f] \in {101, 69}
                 THEN LET g == IF f < Len(in) /\ in[f+1] \in {43, 45} THEN f + 2 ELSE f + 1
                          e == RunDigits(in, g)
                      IN IF e = g THEN 0 ELSE e
            ELSE f
RECURSIVE WfVal(_, _, _)
RECURSIVE WfArr(_, _, _)
RECURSIVE WfObj(_, _, _)
\* elements up to the closing bracket, p at the first character of an element
WfArr(in, p, loose) ==
    LET e == WfVal(in, p, loose) IN
    IF e = 0 THEN 0
    ELSE LET q == Ws(in, e) IN
         IF q > Len(in) THEN 0
         ELSE IF in[q] = RB THEN q + 1
         ELSE IF in[q] = CO THEN WfArr(in, Ws(in, q + 1), loose) ELSE 0
WfObj(in, p, loose) ==
    IF p > Len(in) THEN 0
    ELSE IF in[p] # QU THEN 0
    ELSE LET k == WfStr(in, p + 1, loose)
             c == IF k = 0 THEN 0 ELSE Ws(in, k)
         IN IF c = 0 THEN 0
            ELSE IF c > Len(in) THEN 0
            ELSE IF in[c] # CL THEN 0
            ELSE LET e == WfVal(in, Ws(in, c + 1), loose) IN
                 IF e = 0 THEN 0
                 ELSE LET q == Ws(in, e) IN
                      IF q > Len(in) THEN 0
                      ELSE IF in[q] = RC THEN q + 1
                      ELSE IF in[q] = CO THEN WfObj(in, Ws(in, q + 1), loose) ELSE 0
WfVal(in, p, loose) ==
    IF p > Len(in) THEN 0
    ELSE LET c == in[p] IN
         CASE c = QU -> WfStr(in, p + 1, loose)
           [] c = LB -> LET q == Ws(in, p + 1) IN
                        IF q > Len(in) THEN 0 ELSE IF in[q] = RB THEN q + 1 ELSE WfArr(in, q, loose)
           [] c = LC -> LET q == Ws(in, p + 1) IN
                        IF q > Len(in) THEN 0 ELSE IF in[q] = RC THEN q + 1 ELSE WfObj(in, q, loose)
           [] At(in, p, T_null) -> p + 4
           [] At(in, p, T_true) -> p + 4
           [] At(in, p, T_false) -> p + 5
           [] IsNumCh(c) -> WfNum(in, p, loose)
           [] OTHER -> 0
WfText(in, loose) == LET e == WfVal(in, Ws(in, 1), loose) IN e # 0 /\ AtEnd(in, Ws(in, e))
=============================================================================
