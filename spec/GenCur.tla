-------------------------------- MODULE GenCur --------------------------------
(* All short histories of cursor calls over small inputs.  The specified answers are those of Cursor (JStep, MStep);    *)
(* what is checked is what the methods promise together: the cursor only moves forward, a call that fails without       *)
(* consuming leaves everything as it was, what is read depends on nothing but what is still to be read, looking comes   *)
(* to the same as looking and reading, and once the input is used up everything that needs a byte says so.              *)
EXTENDS Cursor, TLC, IOUtils, Json

Scope == IOEnv.SCOPE                       \* "json", "number", "text" (JSON); "msgpack", "item" (MessagePack)
Depth == atoi(IOEnv.DEPTH)
IsJson == Scope \in {"json", "number", "text"}

U8 == Leaf("u8")   STR == Leaf("str")   ANY == Leaf("any")
P(o, a, b, k, t, sh) == [o |-> o, a |-> a, b |-> b, k |-> k, t |-> t, sh |-> sh]
Sim(o) == P(o, 0, 0, "", <<>>, Null)
Eat(a) == P("eat", a, 0, "", <<>>, Null)
Split(a, b) == P("split", a, b, "", <<>>, Null)
Number(k) == P("num", 0, 0, k, <<>>, Null)
Tok(t) == P("tok", 0, 0, "", t, Null)
Val(sh) == P("val", 0, 0, "", <<>>, sh)

Inputs == CASE Scope = "json" -> { <<>>, <<32>>, <<49>>, <<32,49,44>>, <<110,117,108,108>>, <<116,114>>, <<91,49,93,32,49>>, <<97,34,32>> }
            [] Scope = "number" -> { <<49,50>>, <<45,49,32>>, <<45>>, <<50,53,54,44,51>>, <<49,46,53>>, <<48,48,57>>, <<32,55>> }
            [] Scope = "text" -> { <<34>>, <<97,92,110,34,49>>, <<65,66,34,34>>, <<97,34,48,48,34>>, <<92,117,48,48,101,57,34>>, <<81,81,61,61,34>>, <<195,34>>, <<97>>, <<92,34,34>>, <<92,92,34,34>>, <<97,92,34,34>> }
            [] Scope = "msgpack" -> { <<>>, <<1>>, <<161,97>>, <<146,1>>, <<192,5,6>>, <<145,145,2,3>>, <<193>>, <<217>> }
            [] Scope = "item" -> { <<129,1,2,3>>, <<196,2,0,1,9>>, <<199,1,2,3,4>>, <<205,1>>, <<220,0,1,7>>, <<212,1>> }
Ops == CASE Scope = "json" -> {Sim("peek"), Sim("ws"), Eat(0), Eat(1), Eat(2), Sim("input"), Split(0, 0), Split(1, 0), Split(1, 1), Number("u8"), Tok(<<>>), Tok(<<117>>), Tok(<<110>>), Val(U8), Val(ANY), Sim("str"), Sim("end")}
         [] Scope = "number" -> {Sim("ws"), Eat(1), Number("u8"), Number("i8"), Number("u16"), Number("i64"), Tok(<<48>>), Val(U8), Val(ANY), Sim("input"), Sim("peek"), Sim("end")}
         [] Scope = "text" -> {Sim("str"), Sim("strb"), Sim("hex"), Sim("b64"), Sim("eatstr"), Eat(1), Sim("peek"), Split(1, 1), Val(STR), Sim("input"), Sim("end")}
         [] Scope = "msgpack" -> {Sim("peek"), Sim("fetch"), Eat(0), Eat(1), Eat(2), Sim("input"), Split(0, 0), Split(1, 0), Split(3, 0), Sim("skip"), Val(U8), Val(ANY), Val(STR), Sim("end")}
         [] Scope = "item" -> {Sim("peek"), Sim("fetch"), Eat(1), Split(2, 0), Sim("skip"), Val(ANY), Val(Wrap("seq", <<U8>>)), Val(Leaf("bytes")), Sim("end")}

VARIABLES in, p, hist, over
vars == <<in, p, hist, over>>
E0 == [fl |-> 0, ft |-> <<>>, fk |-> "f64"]
StepAt(t, q, op) == IF IsJson THEN JStep(t, q, op, E0) ELSE MStep(t, q, op)
Still(op) == op.o \in (IF IsJson THEN JStill ELSE MStill)
\* asking for more than there is: a documented panic of split_input (JSON)
Possible(op) == IsJson /\ op.o = "split" => p + op.a + op.b <= Len(in) + 1

Init == in \in Inputs /\ p = 1 /\ hist = <<>> /\ over = FALSE
Next == /\ Len(hist) < Depth /\ ~over
        /\ \E op \in Ops : /\ Possible(op)
                           /\ LET r == StepAt(in, p, op) IN
                              /\ p' = (IF r.e = "" THEN r.p ELSE p)
                              /\ over' = (op.o = "end" \/ (r.e # "" /\ ~Still(op)))
                              /\ hist' = Append(hist, op)
        /\ UNCHANGED in
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Left == IF p > Len(in) THEN <<>> ELSE Tail2(in, p)
\* what is read depends on what is left only
Local == \A op \in Ops : Possible(op) /\ p <= Len(in) + 1 =>
             LET r == StepAt(in, p, op) q == StepAt(Left, 1, op) IN
             r.e = q.e /\ (r.e = "" => r.v = q.v /\ (op.o = "end" \/ r.p - p = q.p - 1))
Forward == \A op \in Ops : Possible(op) /\ p <= Len(in) + 1 => LET r == StepAt(in, p, op) IN r.e = "" => r.p >= p /\ (op.o \notin {"eat", "end"} => r.p <= Len(in) + 1)
\* looking first changes nothing
Looking == p <= Len(in) => LET k == StepAt(in, p, Sim("peek")) IN
               /\ k.p = p /\ k.v.b = SubSeq(in, p, p) /\ StepAt(in, p, Sim("input")).v.b = Left /\ StepAt(in, p, Sim("input")).p = p
               /\ ~IsJson => LET f == StepAt(in, p, Sim("fetch")) IN f.v = k.v /\ f.p = p + 1
\* with nothing left, whatever needs a byte reports the end
Needs == {"peek", "ws", "num", "str", "strb", "hex", "b64", "eatstr", "fetch", "skip", "val"}
Dry == p > Len(in) => \A op \in Ops : op.o \in Needs => StepAt(in, p, op).e = "UnexpectedEof"
\* a typed value and the bytes it came from: skipping it gets to the same place (or, in JSON, over further digits: 00)
SameEnd == \A sh \in {U8, ANY, STR} : LET r == StepAt(in, p, Val(sh)) IN r.e = "" =>
               IF IsJson THEN LET s == StepAt(in, p, Val(Leaf("ign"))) IN s.e = "" /\ s.p >= r.p /\ \A j \in r.p..(s.p - 1) : in[j] \in {43, 45, 46, 69, 101} \cup 48..57 ELSE StepAt(in, p, Sim("skip")).p = r.p
Laws == Local /\ Forward /\ Looking /\ Dry /\ SameEnd
Emit == (Len(hist) = Depth \/ over) => PrintT(ToJson([t |-> in, ops |-> hist]))
=============================================================================
