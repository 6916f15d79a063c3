-------------------------------- MODULE GenMp ---------------------------------
(* A MessagePack message growing byte by byte (or token by token) in front of a decoder that wants a value of a given   *)
(* type; see GenJson.  Besides generating stimuli this shows, on the specification, that the typed decoders, the        *)
(* self-describing one and the skipper agree on where an item ends, and that every beginning of an item is incomplete.  *)
EXTENDS Msgpack, IOUtils, Json

Scope == IOEnv.SCOPE
Depth == atoi(IOEnv.DEPTH)

Fld(b, sh, d) == Nd("field", d, 0, b, <<sh>>)
U8 == Leaf("u8")   ANY == Leaf("any")   STR == Leaf("str")   IGN == Leaf("ign")
Opt(x) == Wrap("opt", <<x>>)   ArrOf(x) == Wrap("seq", <<x>>)   MapOf(k, x) == Wrap("map", <<k, x>>)
Tup(c) == Wrap("tuple", c)     St(c) == Wrap("struct", c)       Var(k, b, c) == Nd(k, 0, 0, b, c)
A == <<97>>   B == <<98>>
EnumS == Wrap("enum", <<Var("uvar", A, <<>>), Var("nvar", B, <<U8>>)>>)
EnumT == Wrap("enum", <<Var("tvar", A, <<U8, ANY>>), Var("svar", B, <<Fld(A, U8, 0)>>)>>)

Shapes ==
    CASE Scope = "item" -> << ANY, IGN, ArrOf(ANY), MapOf(ANY, IGN), Tup(<<IGN, U8>>) >>
      [] Scope = "scalar" -> << U8, Leaf("i8"), Leaf("i16"), Leaf("u64"), Leaf("f32"), Leaf("f64"), Leaf("bool"), Leaf("unit"), Leaf("char"), STR, Leaf("bytes"), Opt(U8), Opt(Leaf("unit")) >>
      [] Scope = "struct" -> << St(<<Fld(A, U8, 0), Fld(B, Opt(U8), 0)>>), Nd("struct", 1, 0, <<>>, <<Fld(A, ANY, 0)>>), St(<<Fld(A, U8, 1), Fld(B, IGN, 0)>>), EnumS, EnumT, ArrOf(EnumS), Opt(EnumT), St(<<>>) >>
      [] Scope = "array" -> << ArrOf(U8), Tup(<<U8, ANY>>), Tup(<<>>), ArrOf(ArrOf(IGN)), Wrap("tstruct", <<ANY>>), MapOf(U8, ANY), MapOf(STR, Opt(U8)), IGN, ANY >>
      [] Scope = "ext" -> << IGN, ANY, Tup(<<IGN, U8>>), Leaf("bytes"), STR, St(<<Fld(A, U8, 1)>>) >>
Tokens ==
    CASE Scope = "item" -> {<<c>> : c \in {0, 127, 128, 129, 130, 144, 145, 146, 160, 161, 162, 192, 193, 195, 196, 202, 204, 217, 220, 222, 255, 2}}
      [] Scope = "scalar" -> {<<c>> : c \in {0, 1, 127, 128, 144, 160, 161, 162, 97, 195, 169, 255, 224, 192, 194, 195, 196, 197, 198, 204, 205, 208, 209, 217, 218}}
                             \cup {<<202, 127, 128, 0, 0>>, <<203, 64, 9, 33>>, <<207, 0, 0, 0>>, <<211, 255, 255>>, <<206, 0, 0>>, <<210, 255, 255>>, <<219, 0, 0, 0>>}
      [] Scope = "struct" -> {<<c>> : c \in {0, 1, 2, 128, 129, 130, 144, 145, 146, 192, 195, 204, 208}} \cup {<<161, 97>>, <<161, 98>>, <<161, 99>>, <<217, 1, 97>>, <<205, 0, 1>>, <<206, 0, 0, 0, 0>>, <<222, 0>>, <<220, 0>>}
      [] Scope = "array" -> {<<c>> : c \in {0, 1, 2, 128, 129, 130, 144, 145, 146, 192, 193, 204}} \cup {<<220, 0>>, <<221, 0, 0, 0>>, <<222, 0>>, <<223, 0, 0, 0>>, <<161, 97>>, <<145, 145>>}
      [] Scope = "ext" -> {<<c>> : c \in {0, 1, 2, 3, 145, 146, 193, 199, 212, 213, 196, 160}} \cup {<<200, 0>>, <<201, 0, 0, 0>>, <<214, 5, 1>>, <<215, 5, 1, 2, 3>>, <<216>> \o Rep(193, 14), <<197, 0>>, <<198, 0, 0, 0>>, <<201, 255, 255, 255>>, <<129, 161, 122>>}

VARIABLES x, t, n
vars == <<x, t, n>>
Sh == Shapes[x]
R == MpDe(Sh, t, 1)

Init == x \in 1..Len(Shapes) /\ t = <<>> /\ n = 0
Next == /\ n < Depth
        /\ R.e = "UnexpectedEof" \/ (R.e = "" /\ R.p = Len(t) + 1)     \* not there yet, or just there
        /\ \E k \in Tokens : t' = t \o k
        /\ n' = n + 1 /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Emit == PrintT(ToJson([x |-> x, t |-> t, e |-> R.e]))
ASSUME PrintT(ToJson([shapes |-> Shapes]))

-----------------------------------------------------------------------------
(* an independent account of where an item ends: by structure, not by counting *)
RECURSIVE ItemEnd(_, _)
RECURSIVE ItemsEnd(_, _, _)
\* position after the item at p; 0 = a reserved code, -1 = the input ends first
ItemsEnd(in, p, k) == IF k = 0 THEN p ELSE IF p > Len(in) THEN -1
                      ELSE LET e == ItemEnd(in, p) IN IF e <= 0 THEN e ELSE ItemsEnd(in, e, k - 1)
Past(in, p) == IF p > Len(in) + 1 THEN -1 ELSE p
Num(in, p, w) == IF p + w - 1 > Len(in) THEN -1 ELSE LenAt(in, p, w)
After(in, p, w, extra) == LET k == Num(in, p, w) IN IF k < 0 \/ k > Len(in) THEN -1 ELSE Past(in, p + w + k + extra)
Many(in, p, w, f) == LET k == Num(in, p, w) IN IF k < 0 THEN -1 ELSE ItemsEnd(in, p + w, IF k > Len(in) THEN Len(in) + 1 ELSE f * k)
ItemEnd(in, p) ==
    LET c == in[p] IN
    CASE c = 193 -> 0
      [] c \in 0..127 \/ c \in 224..255 \/ c \in {192, 194, 195} -> p + 1
      [] c \in 160..191 -> Past(in, p + 1 + (c - 160))
      [] c \in 144..159 -> ItemsEnd(in, p + 1, c - 144)
      [] c \in 128..143 -> ItemsEnd(in, p + 1, 2 * (c - 128))
      [] c \in {204, 208} -> Past(in, p + 2) [] c \in {205, 209} -> Past(in, p + 3)
      [] c \in {202, 206, 210} -> Past(in, p + 5) [] c \in {203, 207, 211} -> Past(in, p + 9)
      [] c \in {217, 196} -> After(in, p + 1, 1, 0) [] c \in {218, 197} -> After(in, p + 1, 2, 0) [] c \in {219, 198} -> After(in, p + 1, 4, 0)
      [] c = 199 -> After(in, p + 1, 1, 1) [] c = 200 -> After(in, p + 1, 2, 1) [] c = 201 -> After(in, p + 1, 4, 1)
      [] c = 212 -> Past(in, p + 3) [] c = 213 -> Past(in, p + 4) [] c = 214 -> Past(in, p + 6) [] c = 215 -> Past(in, p + 10) [] c = 216 -> Past(in, p + 18)
      [] c = 220 -> Many(in, p + 1, 2, 1) [] c = 221 -> Many(in, p + 1, 4, 1)
      [] c = 222 -> Many(in, p + 1, 2, 2) [] OTHER -> Many(in, p + 1, 4, 2)
Whole(in) == IF in = <<>> THEN -1 ELSE ItemEnd(in, 1)

\* counting items and following the structure come to the same
SkipByStructure == LET s == MpSkip(t, 1) e == Whole(t) IN
                   /\ (s.e = "") = (e > 0) /\ (e > 0 => s.p = e)
                   /\ (s.e = "ReservedCode") = (e = 0)
\* a typed value that is read ends where the item ends
EndsAlike == R.e = "" => R.p = Whole(t)
\* every proper beginning of what was read is incomplete, whatever the type
PrefixIncomplete == R.e = "" => \A k \in 0..(R.p - 2) : MpDe(Sh, SubSeq(t, 1, k), 1).e = "UnexpectedEof"
\* what follows a value does not change how it is read
TailIrrelevant == R.e = "" => \A k \in Tokens : LET r == MpDe(Sh, t \o k, 1) IN r.e = "" /\ r.v = R.v /\ r.p = R.p
\* an error other than missing input stays an error, whatever follows
Final == R.e \in {"", "UnexpectedEof"} \/ \A k \in Tokens : MpDe(Sh, t \o k, 1).e = R.e
\* missing input is only reported when input is missing
EofIsEof == R.e = "UnexpectedEof" => Whole(t) = -1
Laws == SkipByStructure /\ EndsAlike /\ PrefixIncomplete /\ TailIrrelevant /\ Final /\ EofIsEof
=============================================================================
