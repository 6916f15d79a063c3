-------------------------------- MODULE GenSer --------------------------------
(* A serializer as the machine it is: a value's Serialize implementation makes calls - put a scalar, begin a container  *)
(* with a declared length, announce a field, leave a field out, end the container - and the serializer answers each     *)
(* one at once, by appending to its output, with nothing but a stack of open containers to go by.                       *)
(* TLC explores every sequence of calls of the scope (well-behaved or not) and checks, when the value is finished, that *)
(* the outputs of the step-by-step machines (JSON; the three MessagePack flavors) are those of the functions JsSer and  *)
(* MpSer, that they are texts / items, and that they read back as the value; the finished values are printed as         *)
(* stimuli for the implementation.                                                                                      *)
EXTENDS Data, IOUtils, Json
J == INSTANCE JsonText
M == INSTANCE Msgpack

Scope == IOEnv.SCOPE
Depth == atoi(IOEnv.DEPTH)

A == <<97>>   B == <<98>>
U8(n) == IntV("u8", IntZ(n))
S(b) == TextV("str", b)
Leaves == CASE Scope = "mixed" -> {UnitV, U8(7), S(A), NoneV, BoolV(TRUE), TextV("bytes", <<255>>)}
            [] Scope = "seq" -> {U8(1), NoneV, TextV("bytes", <<>>), S(<<>>)}
            [] Scope = "map" -> {S(A), BoolV(FALSE), U8(200), NoneV, TextV("char", <<34>>)}
            [] Scope = "struct" -> {U8(3), NoneV}
            [] Scope = "enum" -> {U8(5), Nd("uvar", 0, 1, B, <<>>), UnitV}
            [] Scope = "key" -> {S(<<34,10>>), U8(1), F64V(Rep(0, 8)), TextV("bytes", A), NoneV, UnitV, Nd("uvar", 0, 0, A, <<>>), BoolV(TRUE)}
\* containers that can be begun
Begin == CASE Scope = "mixed" -> {Nd("seq", 1, 0, <<>>, <<>>), Nd("tuple", 2, 0, <<>>, <<>>), Nd("map", 1, 0, <<>>, <<>>), Nd("struct", 1, 0, <<>>, <<>>), Leaf("some"), Leaf("nstruct"), Nd("nvar", 0, 1, B, <<>>), Nd("svar", 1, 0, A, <<>>)}
           [] Scope = "seq" -> {Nd("seq", n, 0, <<>>, <<>>) : n \in {-1, 0, 1, 2}} \cup {Nd("tuple", n, 0, <<>>, <<>>) : n \in 0..2} \cup {Nd("tstruct", 1, 0, <<>>, <<>>), Leaf("some")}
           [] Scope = "map" -> {Nd("map", n, 0, <<>>, <<>>) : n \in {-1, 0, 1, 2}} \cup {Leaf("nstruct")}
           [] Scope = "struct" -> {Nd("struct", n, 0, <<>>, <<>>) : n \in 0..3} \cup {Nd("svar", n, 128, A, <<>>) : n \in 0..2}
           [] Scope = "enum" -> {Nd("tvar", n, 1, B, <<>>) : n \in 0..2} \cup {Nd("nvar", 0, 0, A, <<>>), Nd("svar", 1, 1, B, <<>>), Nd("svar", 0, 1, <<>>, <<>>), Leaf("some"), Nd("tstruct", 1, 0, <<>>, <<>>)}
           [] Scope = "key" -> {Nd("map", 1, 0, <<>>, <<>>), Leaf("some"), Leaf("nstruct"), Nd("seq", 0, 0, <<>>, <<>>), Nd("nvar", 0, 0, A, <<>>), Nd("struct", 0, 0, <<>>, <<>>), Nd("tuple", 0, 0, <<>>, <<>>)}
Names == {A, <<34>>}

Flavors == 0..2
Wrappers == {"some", "nstruct", "nvar"}                     \* exactly one value, no end call
Fielded == {"struct", "svar"}
Mapped == {"map"}

(* A frame: the node under construction, name = <<>> or <<field name announced>>,                                         *)
(* cnt = entries written so far, rem = entries the MessagePack header still announces, pos = position of the next field *)
Frame(v) == [v |-> v, name |-> <<>>, cnt |-> 0, rem |-> v.n, pos |-> 0]

VARIABLES st,     \* stack of frames, the innermost last
          done,   \* <<>> or <<the finished value>>
          jo, je, \* JSON output and error
          mo, me, \* MessagePack outputs and errors, one per flavor
          k       \* calls made
vars == <<st, done, jo, je, mo, me, k>>

Top == Last(st)
IsKeyPos == st # <<>> /\ Top.v.k = "map" /\ (Len(Top.v.c) % 2) = 0
\* is this value (part of) an object key
RECURSIVE KeyCtx(_)
KeyCtx(s) == IF s = <<>> THEN FALSE
             ELSE IF Last(s).v.k = "map" THEN (Len(Last(s).v.c) % 2) = 0
             ELSE IF Last(s).v.k = "nstruct" THEN KeyCtx(Front(s)) ELSE FALSE
CanPut == done = <<>> /\ (IF st = <<>> THEN TRUE ELSE Top.v.k \in Fielded => Top.name # <<>>)

\* what JSON writes before a value here
JPre == IF st = <<>> THEN <<>>
        ELSE LET f == Top comma == IF f.cnt > 0 THEN <<44>> ELSE <<>> IN
             CASE f.v.k \in Wrappers -> <<>>
               [] f.v.k = "map" -> IF IsKeyPos THEN comma ELSE <<58>>
               [] f.v.k \in Fielded -> comma \o J!Quoted(f.name[1]) \o <<58>>
               [] OTHER -> comma
\* what MessagePack writes before a value here, and whether it refuses
MPre(fl) == IF st = <<>> \/ Top.v.k \notin Fielded THEN <<>>
            ELSE CASE fl = 0 -> <<>> [] fl = 1 -> M!MpU32(Top.pos) [] OTHER -> M!MpStr(Top.name[1])
LenErr(v, fl) == IF v.k = "map" \/ (v.k \in Fielded /\ fl # 0) THEN "MapLength" ELSE "SeqLength"
MRefuse(fl) == IF st = <<>> THEN ""
               ELSE IF Top.v.k \in Wrappers THEN ""
               ELSE IF Top.v.k = "map" /\ ~IsKeyPos THEN ""
               ELSE IF Top.rem = 0 THEN LenErr(Top.v, fl) ELSE ""

\* one entry of the innermost container has been begun
Begun == IF st = <<>> THEN st
         ELSE LET f == Top IN
              IF f.v.k \in Wrappers \/ (f.v.k = "map" /\ ~IsKeyPos) THEN st
              ELSE [st EXCEPT ![Len(st)] = [f EXCEPT !.cnt = @ + 1, !.rem = IF @ > 0 THEN @ - 1 ELSE @, !.pos = IF f.v.k \in Fielded THEN @ + 1 ELSE @]]

\* the finished value v goes into the innermost open container; wrappers end by themselves.  r = <<stack, done, JSON tail>>
RECURSIVE Into(_, _, _)
Into(s, v, tail) ==
    IF s = <<>> THEN <<s, <<v>>, tail>>
    ELSE LET f == Last(s)
             w == [f.v EXCEPT !.c = Append(@, IF f.v.k \in Fielded THEN Nd("field", 0, 0, f.name[1], <<v>>) ELSE v)]
         IN IF f.v.k \in Wrappers THEN Into(Front(s), w, tail \o (IF f.v.k = "nvar" THEN <<125>> ELSE <<>>))
            ELSE <<Append(Front(s), [f EXCEPT !.v = w, !.name = <<>>]), <<>>, tail>>


Init == st = <<>> /\ done = <<>> /\ jo = <<>> /\ je = "" /\ mo = <<<<>>, <<>>, <<>>>> /\ me = <<"", "", "">> /\ k = 0

\* a scalar
Put == /\ CanPut
       /\ \E v \in Leaves :
          LET key == KeyCtx(st)
              j == IF key THEN J!JsKey(v) ELSE J!JsSer(v, 1, <<>>)
              m(fl) == M!MpSer(v, fl, FALSE)
              b == Into(Begun, v, <<>>)
          IN /\ st' = b[1] /\ done' = b[2]
             /\ je' = (IF je # "" THEN je ELSE j.e)
             /\ jo' = (IF je # "" THEN jo ELSE jo \o JPre \o j.o \o b[3])
             /\ me' = [fl \in 1..3 |-> IF me[fl] # "" THEN me[fl] ELSE IF MRefuse(fl - 1) # "" THEN MRefuse(fl - 1) ELSE m(fl - 1).e]
             /\ mo' = [fl \in 1..3 |-> IF me[fl] # "" \/ MRefuse(fl - 1) # "" THEN mo[fl] ELSE mo[fl] \o MPre(fl - 1) \o m(fl - 1).o]
\* a container is begun
JOpen(v) == CASE v.k \in {"seq", "tuple", "tstruct"} -> <<91>>
              [] v.k \in {"map", "struct"} -> <<123>>
              [] v.k = "tvar" -> <<123>> \o J!Quoted(v.b) \o <<58, 91>>
              [] v.k = "svar" -> <<123>> \o J!Quoted(v.b) \o <<58, 123>>
              [] v.k = "nvar" -> <<123>> \o J!Quoted(v.b) \o <<58>>
              [] OTHER -> <<>>
MOpen(v, fl) == LET name == <<129>> \o (IF fl = 2 THEN M!MpStr(v.b) ELSE M!MpU32(v.i))
                    arr == IF v.n < 0 THEN <<>> ELSE M!MpArrHdr(v.n)
                    map == IF v.n < 0 THEN <<>> ELSE M!MpMapHdr(v.n)
                IN CASE v.k \in {"seq", "tuple", "tstruct"} -> arr
                     [] v.k = "map" -> map
                     [] v.k = "struct" -> IF fl = 0 THEN arr ELSE map
                     [] v.k = "tvar" -> name \o arr
                     [] v.k = "svar" -> name \o (IF fl = 0 THEN arr ELSE map)
                     [] v.k = "nvar" -> name
                     [] OTHER -> <<>>
Open == /\ CanPut
        /\ \E v \in Begin :
           LET bad == KeyCtx(st) /\ v.k # "nstruct"
               unk(fl) == IF v.n >= 0 THEN "" ELSE LenErr(v, fl)
           IN /\ st' = Append(Begun, Frame(v)) /\ UNCHANGED done
              /\ je' = (IF je # "" THEN je ELSE IF bad THEN "InvalidKeyType" ELSE "")
              /\ jo' = (IF je # "" THEN jo ELSE jo \o JPre \o (IF bad THEN <<>> ELSE JOpen(v)))
              /\ me' = [fl \in 1..3 |-> IF me[fl] # "" THEN me[fl] ELSE IF MRefuse(fl - 1) # "" THEN MRefuse(fl - 1) ELSE unk(fl - 1)]
              /\ mo' = [fl \in 1..3 |-> IF me[fl] # "" \/ MRefuse(fl - 1) # "" THEN mo[fl] ELSE mo[fl] \o MPre(fl - 1) \o MOpen(v, fl - 1)]
\* a field is announced, or left out
Announce == /\ done = <<>> /\ st # <<>> /\ Top.v.k \in Fielded /\ Top.name = <<>>
            /\ \E b \in Names : st' = [st EXCEPT ![Len(st)].name = <<b>>]
            /\ UNCHANGED <<done, jo, je, mo, me>>
Skip == /\ done = <<>> /\ st # <<>> /\ Top.v.k \in Fielded /\ Top.name = <<>>
        /\ st' = [st EXCEPT ![Len(st)] = [Top EXCEPT !.v.c = Append(@, Nd("skip", 0, 0, A, <<>>)), !.pos = @ + 1]]
        /\ me' = [fl \in 1..3 |-> IF me[fl] = "" /\ fl = 1 /\ Top.rem # 0 THEN "FieldSkipped" ELSE me[fl]]
        /\ UNCHANGED <<done, jo, je, mo>>
\* the innermost container is ended
Close == /\ done = <<>> /\ st # <<>> /\ Top.v.k \notin Wrappers /\ Top.name = <<>>
         /\ Top.v.k = "map" => (Len(Top.v.c) % 2) = 0
         /\ LET v == Top.v
                end == CASE v.k \in {"seq", "tuple", "tstruct"} -> <<93>> [] v.k \in {"map", "struct"} -> <<125>> [] v.k = "tvar" -> <<93, 125>> [] OTHER -> <<125, 125>>
                b == Into(Front(st), v, end)
            IN /\ st' = b[1] /\ done' = b[2]
               /\ jo' = (IF je # "" THEN jo ELSE jo \o b[3]) /\ UNCHANGED je
               /\ me' = [fl \in 1..3 |-> IF me[fl] = "" /\ Top.rem > 0 THEN LenErr(v, fl - 1) ELSE me[fl]] /\ UNCHANGED mo

Next == k < Depth /\ k' = k + 1 /\ (Put \/ Open \/ Announce \/ Skip \/ Close)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a type the value belongs to (Null: none with elements of one type)
RECURSIVE ShapeOf(_)
ShapeOf(v) ==
    LET cs == [j \in 1..Len(v.c) |-> ShapeOf(v.c[j])]
        fs == [j \in 1..Len(v.c) |-> Nd("field", 0, 0, v.c[j].b, <<IF v.c[j].k = "skip" THEN Wrap("opt", <<Leaf("u8")>>) ELSE ShapeOf(v.c[j].c[1])>>)]
        var(x) == Wrap("enum", Rep(Nd("uvar", 0, 0, <<63>>, <<>>), v.i) \o <<x>>)
    IN CASE v.k = "none" -> Wrap("opt", <<Leaf("u8")>>)
         [] v.k = "some" -> Wrap("opt", cs)
         [] v.k = "nstruct" -> Wrap("nstruct", cs)
         [] v.k = "uvar" -> var(Nd("uvar", 0, 0, v.b, <<>>))
         [] v.k = "nvar" -> var(Nd("nvar", 0, 0, v.b, cs))
         [] v.k = "tvar" -> var(Nd("tvar", 0, 0, v.b, cs))
         [] v.k = "svar" -> var(Nd("svar", 0, 0, v.b, fs))
         [] v.k \in {"tuple", "tstruct"} -> Wrap(v.k, cs)
         [] v.k = "seq" -> Wrap("seq", IF cs = <<>> THEN <<Leaf("u8")>> ELSE <<cs[1]>>)
         [] v.k = "map" -> Wrap("map", IF cs = <<>> THEN <<Leaf("u8"), Leaf("u8")>> ELSE <<cs[1], cs[2]>>)
         [] v.k = "struct" -> Wrap("struct", fs)
         [] OTHER -> Leaf(v.k)
\* lengths as declared, fields of different names, elements of one type, no none inside some
RECURSIVE Honest(_)
Honest(v) == /\ \A j \in 1..Len(v.c) : Honest(v.c[j])
             /\ v.k \in {"seq", "tuple", "tstruct", "tvar"} => v.n = Len(v.c)
             /\ v.k = "map" => v.n * 2 = Len(v.c)
             /\ v.k \in Fielded => v.n = Cardinality({j \in 1..Len(v.c) : v.c[j].k = "field"}) /\ \A a, b \in 1..Len(v.c) : a # b => v.c[a].b # v.c[b].b
             /\ v.k = "seq" => \A j \in 1..Len(v.c) : ShapeOf(v.c[j]) = ShapeOf(v.c[1])
             /\ v.k = "map" => \A j \in 1..Len(v.c) : ShapeOf(v.c[j]) = ShapeOf(v.c[((j - 1) % 2) + 1])
RECURSIVE HasSkip(_)
HasSkip(v) == v.k = "skip" \/ \E j \in 1..Len(v.c) : HasSkip(v.c[j])

E1 == [fl |-> 1, ft |-> <<>>, fk |-> "f64"]
V == done[1]
\* step by step comes to the same as all at once
Refines == done # <<>> =>
    /\ LET s == J!JsSer(V, 1, <<>>) IN je = s.e /\ jo = s.o
    /\ \A fl \in Flavors : LET s == M!MpSer(V, fl, FALSE) IN me[fl + 1] = s.e /\ mo[fl + 1] = s.o
\* what is written is one text / one item
WholeText == done # <<>> => /\ je = "" => J!WfText(jo, FALSE)
                            /\ \A fl \in 1..3 : me[fl] = "" => LET s == M!MpSkip(mo[fl], 1) IN s.e = "" /\ s.p = Len(mo[fl]) + 1
\* nothing that is being written could already be complete
NoneTooSoon == done = <<>> /\ st # <<>> => /\ je = "" => ~J!WfText(jo, FALSE) \/ \A j \in 1..Len(st) : st[j].v.k \in Wrappers
                                           /\ \A fl \in 1..3 : me[fl] = "" /\ Top.rem > 0 => M!MpSkip(mo[fl], 1).e = "UnexpectedEof"
\* it reads back
ReadsBack == done # <<>> /\ Honest(V) =>
    LET sh == ShapeOf(V) IN
    /\ je = "" => LET r == J!JsFull(sh, jo, E1) IN r.e = "ENV" \/ (r.e = "" /\ Same(Canon(V, TRUE), r.v))     \* ENV: a number the (empty) float table lacks
    /\ \A fl \in Flavors : (fl # 0 \/ ~HasSkip(V)) =>
         LET r == M!MpDe(sh, mo[fl + 1], 1) IN me[fl + 1] = "" /\ r.e = "" /\ r.p = Len(mo[fl + 1]) + 1 /\ Same(Canon(V, FALSE), r.v)
Laws == Refines /\ WholeText /\ NoneTooSoon /\ ReadsBack

Emit == done # <<>> => PrintT(ToJson([v |-> V, sh |-> IF Honest(V) THEN ShapeOf(V) ELSE Null, hs |-> IF HasSkip(V) THEN 1 ELSE 0, jk |-> je]))
=============================================================================
