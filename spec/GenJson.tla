------------------------------- MODULE GenJson --------------------------------
(* A text growing token by token in front of a decoder that wants a value of a given type.  A text is extended only as  *)
(* long as it may still become a document of that type, so what TLC explores are all documents of the scope, all their  *)
(* beginnings, and every way of going wrong by one token.  Each text reached is printed (a stimulus for the             *)
(* implementation), and the laws of the decoder that the properties rest on are checked on the specification itself.    *)
EXTENDS JsonText, IOUtils, Json

Scope == IOEnv.SCOPE
Depth == atoi(IOEnv.DEPTH)

Fld(b, sh, d) == Nd("field", d, 0, b, <<sh>>)
U8 == Leaf("u8")   ANY == Leaf("any")   STR == Leaf("str")   IGN == Leaf("ign")
Opt(x) == Wrap("opt", <<x>>)   ArrOf(x) == Wrap("seq", <<x>>)   MapOf(k, x) == Wrap("map", <<k, x>>)
Tup(c) == Wrap("tuple", c)     St(c) == Wrap("struct", c)       Var(k, b, c) == Nd(k, 0, 0, b, c)
A == <<97>>   B == <<98>>
EnumS == Wrap("enum", <<Var("uvar", A, <<>>), Var("nvar", B, <<U8>>)>>)
EnumT == Wrap("enum", <<Var("tvar", A, <<U8, ANY>>), Var("svar", B, <<Fld(A, U8, 0)>>)>>)

\* the types a scope looks at: << shape, byte flavor >>
Shapes ==
    CASE Scope = "string" -> << <<STR, 0>>, <<Leaf("bytes"), 0>>, <<IGN, 0>>, <<Leaf("char"), 0>> >>
      [] Scope = "escape" -> << <<STR, 0>>, <<IGN, 0>>, <<ANY, 0>>, <<ArrOf(IGN), 0>> >>
      [] Scope = "utf8" -> << <<STR, 0>>, <<Leaf("char"), 0>>, <<ANY, 0>>, <<Leaf("bytes"), 0>> >>
      [] Scope = "number" -> << <<U8, 0>>, <<Leaf("i8"), 0>>, <<Leaf("i64"), 0>>, <<Leaf("f64"), 0>>, <<Leaf("f32"), 0>>, <<ANY, 0>>, <<IGN, 0>> >>
      [] Scope = "array" -> << <<ANY, 0>>, <<IGN, 0>>, <<ArrOf(U8), 0>>, <<ArrOf(Opt(U8)), 0>>, <<Tup(<<U8, ANY>>), 0>>, <<Tup(<<>>), 0>>, <<ArrOf(ArrOf(IGN)), 0>>,
                               <<St(<<Fld(A, U8, 0), Fld(B, Opt(U8), 0)>>), 0>>, <<Wrap("tstruct", <<U8>>), 0>>, <<St(<<Fld(A, U8, 1)>>), 0>>, <<Leaf("bytes"), 1>> >>
      [] Scope = "object" -> << <<ANY, 0>>, <<IGN, 0>>, <<MapOf(STR, ANY), 0>>, <<St(<<Fld(A, U8, 0), Fld(B, Opt(U8), 0)>>), 0>>, <<Nd("struct", 1, 0, <<>>, <<Fld(A, ANY, 0)>>), 0>>,
                                <<EnumS, 0>>, <<EnumT, 0>>, <<ArrOf(EnumS), 0>>, <<Opt(EnumS), 0>>, <<MapOf(EnumS, U8), 0>>, <<St(<<Fld(A, St(<<Fld(B, IGN, 0)>>), 0)>>), 0>> >>
      [] Scope = "key" -> << <<MapOf(U8, IGN), 0>>, <<MapOf(Leaf("i8"), IGN), 0>>, <<MapOf(Leaf("bool"), U8), 0>>, <<MapOf(Leaf("char"), U8), 0>>, <<MapOf(STR, U8), 0>>,
                             <<MapOf(Wrap("nstruct", <<Leaf("i16")>>), U8), 0>>, <<MapOf(ANY, U8), 0>>, <<MapOf(EnumS, U8), 0>>, <<ANY, 0>>, <<MapOf(Leaf("u64"), U8), 0>> >>
      [] Scope = "bytes" -> << <<Leaf("bytes"), 0>>, <<Leaf("bytes"), 1>>, <<Leaf("bytes"), 2>>, <<Leaf("bytebuf"), 1>>, <<Leaf("bytebuf"), 2>> >>
      [] Scope = "word" -> << <<Leaf("bool"), 0>>, <<Leaf("unit"), 0>>, <<Opt(Leaf("bool")), 0>>, <<ANY, 0>>, <<IGN, 0>>, <<Leaf("f64"), 0>>, <<Leaf("ustruct"), 0>>, <<ArrOf(Opt(Leaf("unit"))), 0>> >>

Q == <<34>>   BSL == <<92>>
UE(h) == <<117>> \o h                                        \* u....
H00e9 == <<48,48,101,57>>   Hd83d == <<100,56,51,68>>   Hde00 == <<68,69,48,48>>   H0022 == <<48,48,50,50>>
Tokens ==
    CASE Scope = "string" -> {Q, A, BSL, <<110>>, <<47>>, UE(H00e9), UE(Hd83d), UE(Hde00), UE(H0022), UE(<<48>>), <<195,169>>, <<10>>, <<31>>, BSL \o BSL, <<32>>}
      [] Scope = "escape" -> {Q, BSL, A, <<10>>, <<110>>, <<91>>, <<93>>, <<44>>}
      [] Scope = "utf8" -> {Q, A, <<128>>, <<191>>, <<193>>, <<195>>, <<224>>, <<160>>, <<237>>, <<159>>, <<240>>, <<144>>, <<244>>, <<143>>, <<245>>, BSL \o UE(H00e9), BSL \o <<110>>}
      [] Scope = "number" -> {<<45>>, <<43>>, <<46>>, <<101>>, <<69>>, <<48>>, <<49>>, <<50,53>>, <<53>>, <<54>>, <<57,57,57,57,57,57,57,57,57,57>>, <<32>>, <<44>>}
      [] Scope = "array" -> {<<91>>, <<93>>, <<44>>, <<49>>, T_null, <<34,97,34>>, <<123>>, <<125>>, <<58>>, <<32>>, <<91,93>>}
      [] Scope = "object" -> {<<123>>, <<125>>, <<58>>, <<44>>, <<34,97,34>>, <<34,98,34>>, <<34,92,117,48,48,54,50,34>>, <<49>>, T_null, <<91>>, <<93>>, <<10>>}
      [] Scope = "key" -> {<<123>>, <<125>>, <<58>>, <<44>>, Q, A, <<49>>, <<48>>, <<45>>, <<50,53,53>>, T_true, T_false, <<32>>, BSL \o <<116>>, <<195,169>>}
      [] Scope = "bytes" -> {Q, <<48>>, <<97>>, <<70>>, <<65,65>>, <<103>>, <<43>>, <<47>>, <<61>>, BSL, <<10>>, <<32>>, <<91>>, <<93>>, <<44>>, <<50,53,53>>, <<50,53,54>>, <<54,53,53,51,53>>, <<195>>, T_null}
      [] Scope = "word" -> {<<110>>, <<117>>, <<108>>, <<117,108,108>>, <<116>>, <<114,117>>, <<101>>, <<102>>, <<97,108>>, <<115>>, <<32>>, <<93>>, <<91>>, <<44>>, <<78>>, <<69>>}

VARIABLES x, t, n
vars == <<x, t, n>>
E0 == [fl |-> Shapes[x][2], ft |-> <<>>, fk |-> "f64"]
De(in) == JsFull(Shapes[x][1], in, E0)
E == De(t).e
Viable(e) == e \in {"", "UnexpectedEof", "ENV"}

Init == x \in 1..Len(Shapes) /\ t = <<>> /\ n = 0
Next == /\ n < Depth
        /\ Viable(E)
        /\ \E k \in Tokens : t' = t \o k
        /\ n' = n + 1 /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Emit == PrintT(ToJson([x |-> x, t |-> t, e |-> E]))
Table == PrintT(ToJson([shapes |-> Shapes]))
ASSUME Table

-----------------------------------------------------------------------------
(* laws of the specification *)
Sh == Shapes[x][1]
\* whatever is accepted is a JSON text, up to the spelling of numbers and of what is ignored
AcceptedIsText == E = "" => WfText(t, TRUE)
\* every JSON text is accepted when nothing in particular is wanted
TextIsAccepted == Sh.k \in {"any", "ign"} /\ WfText(t, FALSE) => E \in {"", "ENV"}
\* the reader of typed values stops where the value ends
EndsAlike == E = "" => De(t).p >= 1 /\ AtEnd(t, Ws(t, De(t).p)) /\ De(t).p <= Len(t) + 1
\* what is accepted is accepted by the skipper too, with the same end, unless it holds ...
SkipAgrees == E = "" => LET r == JsDe(Leaf("ign"), t, 1, E0) IN r.e = "" /\ r.p = De(t).p
\* a proper beginning of an accepted text is incomplete, or a text followed by whitespace or number characters
PrefixIncomplete == E = "" => \A k \in 0..(Len(t) - 1) : De(SubSeq(t, 1, k)).e \in {"UnexpectedEof", "", "ENV"}
\* an error that is not about missing input stays an error whatever follows
\* (the model extends viable texts only; here it is shown that nothing is lost by that)
Final == Viable(E) \/ \A k \in Tokens : De(t \o k).e # ""
\* values come back: what was read can be written and read again to the same value
Laws == AcceptedIsText /\ TextIsAccepted /\ EndsAlike /\ SkipAgrees /\ PrefixIncomplete /\ Final
=============================================================================
