------------------------------- MODULE Cursor --------------------------------
(* The public cursor methods of the two decoders, as steps of one cursor p over the input.                            *)
(* A step gives Res(error, value, next cursor); the cursor of a failed step is only fixed where the method promises   *)
(* to consume nothing (Still).                                                                                        *)
EXTENDS Data
J == INSTANCE JsonText
M == INSTANCE Msgpack

Rem(in, p) == IF p > Len(in) THEN 0 ELSE Len(in) - p + 1
EOFc(p) == Err("UnexpectedEof", p)
ByteV(b) == TextV("bytes", b)
Peek(in, p) == IF p > Len(in) THEN EOFc(p) ELSE Ok(ByteV(<<in[p]>>), p)
Rest(in, p) == IF p > Len(in) + 1 THEN EOFc(p) ELSE Ok(ByteV(Tail2(in, p)), p)

JStill == {"peek", "ws", "input", "tok"}
JStep(in, p, op, E) ==
    CASE op.o = "peek" -> Peek(in, p)
      [] op.o = "ws" -> LET q == J!Ws(in, p) IN IF p > Len(in) \/ q > Len(in) THEN EOFc(p) ELSE Ok(ByteV(<<in[q]>>), q)
      [] op.o = "eat" -> Ok(Null, p + op.a)
      [] op.o = "far" -> Ok(Null, Len(in) + 1000)                                   \* as far as a cursor goes
      [] op.o = "input" -> Rest(in, p)
      [] op.o = "split" -> Ok(ByteV(SubSeq(in, p, p + op.a - 1)), p + op.a + op.b)
      [] op.o = "num" -> J!IntAt(op.k, in, p)
      [] op.o = "tok" -> J!Token(in, p, op.t, Null)
      [] op.o = "eatstr" -> LET r == J!SkipStr(in, p) IN IF r.e # "" THEN r ELSE Ok(Null, r.p)
      [] op.o = "str" -> LET r == J!TextAt(in, p) IN IF r.e # "" THEN r ELSE Ok(ByteV(r.v.b), r.p)
      [] op.o = "strb" -> J!StrBytesAt(in, p)
      [] op.o = "hex" -> J!HexAt(in, p, <<>>)
      [] op.o = "b64" -> J!B64At(in, p)
      [] op.o = "val" -> J!JsDe(op.sh, in, p, E)
      [] OTHER -> IF J!Ws(in, p) > Len(in) THEN Ok(Null, Len(in) + 1) ELSE Err("TrailingCharacters", p)   \* end

MStill == {"peek", "input", "fetch", "split"}
MStep(in, p, op) ==
    CASE op.o = "peek" -> Peek(in, p)
      [] op.o = "fetch" -> LET r == Peek(in, p) IN IF r.e # "" THEN r ELSE Ok(r.v, p + 1)
      [] op.o = "eat" -> Ok(Null, p + op.a)
      [] op.o = "far" -> Ok(Null, Len(in) + 1000)                                   \* as far as a cursor goes
      [] op.o = "input" -> Rest(in, p)
      [] op.o = "split" -> IF p > Len(in) + 1 \/ op.a > Rem(in, p) THEN EOFc(p) ELSE Ok(ByteV(SubSeq(in, p, p + op.a - 1)), p + op.a)
      [] op.o = "skip" -> LET r == M!MpSkip(in, p) IN IF r.e # "" THEN r ELSE Ok(Null, r.p)
      [] op.o = "val" -> M!MpDe(op.sh, in, p)
      [] OTHER -> IF p > Len(in) + 1 THEN EOFc(p) ELSE Ok(Null, p)                                          \* end

\* unless x, only these errors are compared by name: end of input and trailing characters
SameErr(e, g, x) == (e = "") = (g = "") /\ (x => e = g) /\ (e \in {"UnexpectedEof", "TrailingCharacters"} \/ g = "TrailingCharacters" => e = g)
RECURSIVE JBehaviour(_, _, _, _, _, _)
JBehaviour(in, p, ops, r, E, x) ==
    IF r = <<>> THEN ops = <<>>
    ELSE /\ ops # <<>>
         /\ LET s == JStep(in, p, Head(ops), E) g == Head(r) IN
            /\ SameErr(s.e, g.e, x)
            /\ s.e = "" => Same(s.v, g.v) /\ (Head(ops).o = "end" \/ g.rem = Rem(in, s.p))
            /\ s.e # "" /\ Head(ops).o \in JStill => g.rem = Rem(in, p)
            /\ IF s.e # "" /\ Head(ops).o \notin JStill THEN Tail(r) = <<>>
               ELSE JBehaviour(in, s.p, Tail(ops), Tail(r), E, x)
RECURSIVE MBehaviour(_, _, _, _, _)
MBehaviour(in, p, ops, r, x) ==
    IF r = <<>> THEN ops = <<>>
    ELSE /\ ops # <<>>
         /\ LET s == MStep(in, p, Head(ops)) g == Head(r) IN
            /\ SameErr(s.e, g.e, x)
            /\ s.e = "" => Same(s.v, g.v) /\ g.rem = Rem(in, s.p)
            /\ s.e # "" /\ Head(ops).o \in MStill => g.rem = Rem(in, p)
            /\ IF s.e # "" /\ Head(ops).o \notin MStill THEN Tail(r) = <<>>
               ELSE MBehaviour(in, s.p, Tail(ops), Tail(r), x)
=============================================================================
