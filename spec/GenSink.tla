------------------------------- MODULE GenSink --------------------------------
(* All short histories of a sink of capacity Cap: writes of every kind, clearing, splitting off.  Which answers a step   *)
(* may give is Sinks!StepOk; TLC picks each of them (a partial sink may keep any part of a write that does not fit) and *)
(* checks what users rely on over the whole history, not step by step: that nothing accepted is lost or reordered,      *)
(* nothing is invented, and the capacity is neither exceeded nor left unused.  The histories are the stimuli for the    *)
(* implementations (the answers are judged by Sinks!Behaviour).                                                         *)
EXTENDS Sinks, TLC, IOUtils, Json

Class == IOEnv.SCOPE                       \* "vec" (grows), "arrayvec" (all or nothing), "curslice" (partial), "slice" (clear and split)
Depth == atoi(IOEnv.DEPTH)
Caps == 0..4

W(o, b) == [o |-> o, b |-> b]
Writes == {W("w", <<>>), W("w", <<1>>), W("w", <<2, 3>>), W("w", <<4, 5, 6>>), W("b", <<7>>), W("s", <<>>), W("s", <<97>>), W("s", <<195, 169>>)}
Ops == Writes \cup {W("clear", <<>>)} \cup (IF Class = "slice" THEN {W("split", <<>>), W("f", <<98, 99>>)} ELSE {})
       \cup (IF Class \in Own THEN {W("pop", <<>>), W("push", <<8>>)} ELSE {})

VARIABLES cap,     \* capacity at the beginning
          s,       \* the sink: content and capacity left in all
          hist,    \* the operations so far
          log,     \* what was accepted since the last clear
          heads    \* what was split off, in order
vars == <<cap, s, hist, log, heads>>

Init == /\ cap \in (IF Class = "vec" THEN {0} ELSE Caps) /\ s = Sink(cap) /\ hist = <<>> /\ log = <<>> /\ heads = <<>>
\* contents a step may end with
Ends(op) == CASE Wr(op.o) -> {s.c} \cup {s.c \o SubSeq(op.b, 1, j) : j \in 0..Len(op.b)}
              [] op.o = "clear" -> {<<>>}
              [] op.o = "pop" -> {s.c} \cup (IF s.c = <<>> THEN {} ELSE {Tail(s.c)})
              [] op.o = "push" -> {s.c, s.c \o op.b}
              [] OTHER -> {<<>>}
Step(op) == \E ok \in 0..1 : \E c \in Ends(op) :
            LET h == IF op.o = "split" THEN s.c ELSE <<>> IN
            /\ StepOk(Class, s, op, ok, c, h)
            /\ s' = After(Class, s, op, c)
            /\ log' = (CASE op.o \in {"clear", "split"} -> <<>> [] op.o = "pop" -> Tail2(log, 2) [] op.o = "push" -> log \o (IF Fits(Class, s, op.b) THEN op.b ELSE <<>>) [] ok = 1 -> log \o op.b [] OTHER -> log \o Tail2(c, Len(s.c) + 1))
            /\ heads' = heads \o h
            /\ hist' = Append(hist, op) /\ UNCHANGED cap
Next == Len(hist) < Depth /\ \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Fixed == Class # "vec"
\* the sink holds exactly what it accepted, in order
Holds == s.c = log
\* never more than fits, and the capacity left shrinks by what was split off only
Bounded == Fixed => Len(s.c) <= s.cap /\ s.cap = cap - Len(heads)
\* the observers of a SliceWriter add up
AddUp == LET o == Observers(s) IN Fixed => o[1] + o[3] = o[2] /\ (o[4] = 1) = (o[1] = 0) /\ o[3] >= 0
\* what fits is taken: a write is refused only when it is longer than what is left (so one empty write always succeeds)
Takes == \A op \in Writes : LET must == ~Fixed \/ Len(op.b) <= s.cap - Len(s.c) IN
                            /\ StepOk(Class, s, op, 1, s.c \o op.b, <<>>) = must
                            /\ must => \A c \in Ends(op) : ~StepOk(Class, s, op, 0, c, <<>>)
\* writing in pieces comes to the same as writing at once
Pieces == \A op \in {o \in Writes : o.o = "w" /\ Len(o.b) > 1 /\ Fits(Class, s, o.b)} :
             LET t == After(Class, s, W("w", SubSeq(op.b, 1, 1)), s.c \o SubSeq(op.b, 1, 1)) IN Fits(Class, t, Tail(op.b))
Laws == Holds /\ Bounded /\ AddUp /\ Takes /\ Pieces
Emit == Len(hist) = Depth => PrintT(ToJson([cap |-> cap, ops |-> hist]))
=============================================================================
