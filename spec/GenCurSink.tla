------------------------------ MODULE GenCurSink ------------------------------
(* All short histories of an io::Cursor used as a sink: writes of every kind, and its user setting the position anywhere, *)
(* also beyond the end.  Which answers a step may give is Sinks!CStepOk; TLC picks each of them and checks over the       *)
(* whole history that every byte of the buffer is what the last accepted write covering it put there.  The histories are  *)
(* the stimuli for the implementations (judged by Sinks!History).                                                         *)
EXTENDS Sinks, TLC, IOUtils, Json

Class == IOEnv.SCOPE                       \* "curvec", "currefvec" (grow), "curslice" (does not)
Depth == atoi(IOEnv.DEPTH)
W(o, b) == [o |-> o, b |-> b]
Writes == {W("w", <<>>), W("w", <<2, 3>>), W("w", <<4, 5, 6>>), W("b", <<7>>), W("s", <<195, 169>>)}
Ops == Writes \cup {W("clear", <<>>)} \cup {W("seek", <<p>>) : p \in {1, 2, 5}}

VARIABLES cap, s, hist, log          \* log: the accepted writes <<position, bytes>>
vars == <<cap, s, hist, log>>
Init == cap \in (IF Class = "curvec" THEN {0} ELSE 0..4) /\ s = CSink(Class, cap) /\ hist = <<>> /\ log = <<>>
Ends(op) == {[buf |-> Put(s.buf, s.pos, SubSeq(op.b, 1, j)), pos |-> s.pos + j] : j \in 0..Len(op.b)}
            \cup {[s EXCEPT !.pos = p] : p \in {0, 1, 2, 5}} \cup {[s EXCEPT !.buf = Upto(s.buf, s.pos)]}
Step(op) == \E ok \in 0..1 : \E t \in Ends(op) :
            /\ CStepOk(Class, s, op, ok, t)
            /\ s' = t /\ hist' = Append(hist, op) /\ UNCHANGED cap
            /\ log' = IF Wr(op.o) /\ t.pos > s.pos THEN Append(log, <<s.pos, SubSeq(op.b, 1, t.pos - s.pos)>>) ELSE log
Next == Len(hist) < Depth /\ \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the byte at i (from 0) according to the accepted writes: the last one that covers it, or the zero that was there
RECURSIVE LastPut(_, _)
LastPut(l, i) == IF l = <<>> THEN 0
            ELSE LET x == l[Len(l)] IN IF i >= x[1] /\ i < x[1] + Len(x[2]) THEN x[2][i - x[1] + 1] ELSE LastPut(SubSeq(l, 1, Len(l) - 1), i)
Holds == \A i \in 1..Len(s.buf) : s.buf[i] = LastPut(log, i - 1)
Covers == \A j \in 1..Len(log) : log[j][1] + Len(log[j][2]) <= Len(s.buf)
Keeps == IF Class \in Growing THEN Len(s.buf) >= cap ELSE Len(s.buf) = cap
\* without setting the position a cursor is a sink like the others
Appends == (\A j \in 1..Len(hist) : Wr(hist[j].o)) => Before(s) = Cat([j \in 1..Len(log) |-> log[j][2]])
Takes == \A op \in Writes : Class \in Growing => \E t \in Ends(op) : CStepOk(Class, s, op, 1, t)
Laws == Holds /\ Covers /\ Keeps /\ Appends /\ Takes
Emit == Len(hist) = Depth => PrintT(ToJson([cap |-> cap, ops |-> hist]))
=============================================================================
