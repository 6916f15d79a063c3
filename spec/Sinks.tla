-------------------------------- MODULE Sinks --------------------------------
(* The byte sinks (implementations of SerWrite) as a small state machine, and what a serializer may leave in a sink   *)
(* that fails.  State of a sink: the bytes appended so far (and not split off), and the capacity that is left in all. *)
EXTENDS Bytes

Growing == {"vec", "refvec", "vecdeque", "smallvec", "tinyvecvec", "curvec", "currefvec"}
Whole   == {"arrayvec", "heapless", "heapless8", "heaplessview", "tinyvec", "tinyslice", "slice", "refslice"}  \* all or nothing
Partial == {"curslice", "curbox", "curarr"}                                         \* io::Cursor over a fixed buffer
SinkKinds == Growing \cup Whole \cup Partial
Own     == {"vec", "refvec", "vecdeque", "smallvec", "tinyvecvec", "arrayvec", "heapless", "heapless8", "heaplessview", "tinyvec", "tinyslice"}  \* containers a user can pop from and push to between writes

Sink(cap) == [c |-> <<>>, cap |-> cap]
Fits(kind, s, b) == kind \in Growing \/ Len(s.c) + Len(b) <= s.cap

\* may the step op on sink s end with answer ok, content c and split-off head h; the sink afterwards
Wr(op) == op \in {"w", "b", "s", "f"}
StepOk(kind, s, op, ok, c, h) ==
    CASE Wr(op.o) -> /\ ok = (IF Fits(kind, s, op.b) THEN 1 ELSE 0)
                     /\ \/ ok = 1 /\ c = s.c \o op.b
                        \/ ok = 0 /\ kind \notin Partial /\ c = s.c
                        \/ ok = 0 /\ kind \in Partial /\ Len(c) <= s.cap /\ IsPrefixOf(s.c, c) /\ IsPrefixOf(c, s.c \o op.b)
      [] op.o = "clear" -> ok = 1 /\ c = <<>>                                         \* the container's own clear; a cursor set to its beginning
      [] op.o = "pop" -> ok = 1 /\ c = (IF kind \in Own /\ s.c # <<>> THEN Tail(s.c) ELSE s.c)
      [] op.o = "push" -> ok = 1 /\ c = (IF kind \in Own /\ Fits(kind, s, op.b) THEN s.c \o op.b ELSE s.c)
      [] OTHER -> ok = 1 /\ (kind = "slice" => c = <<>> /\ h = s.c)                  \* split
After(kind, s, op, c) == [c |-> c, cap |-> IF op.o = "split" /\ kind = "slice" THEN s.cap - Len(s.c) ELSE s.cap]
\* the other observers of a SliceWriter: len, capacity, rem_capacity, is_empty
Observers(s) == <<Len(s.c), s.cap, s.cap - Len(s.c), IF s.c = <<>> THEN 1 ELSE 0>>

\* a recorded history r of the operations ops
RECURSIVE Behaviour(_, _, _, _)
Behaviour(kind, s, ops, r) ==
    IF ops = <<>> THEN r = <<>>
    ELSE /\ r # <<>>
         /\ StepOk(kind, s, Head(ops), Head(r).ok, Head(r).c, Head(r).h)
         /\ LET t == After(kind, s, Head(ops), Head(r).c) IN
            /\ kind = "slice" => Head(r).st = Observers(t)
            /\ Behaviour(kind, t, Tail(ops), Tail(r))

(* An io::Cursor is a buffer and a position that its user may set: what is written replaces what stands there, a vector  *)
(* grows (with zeros up to a position beyond its end), anything else refuses what does not fit.                          *)
Cursors == {"curvec", "currefvec"} \cup Partial
CSink(kind, cap) == [buf |-> IF kind = "curvec" THEN <<>> ELSE [j \in 1..cap |-> 0], pos |-> 0]
Upto(buf, n) == buf \o [j \in 1..(IF n > Len(buf) THEN n - Len(buf) ELSE 0) |-> 0]
Put(buf, pos, b) == IF b = <<>> THEN buf ELSE SubSeq(Upto(buf, pos), 1, pos) \o b \o SubSeq(buf, pos + Len(b) + 1, Len(buf))
CFits(kind, s, b) == b = <<>> \/ kind \in Growing \/ s.pos + Len(b) <= Len(s.buf)
CWritten(s, b, t) == t = [buf |-> Put(s.buf, s.pos, b), pos |-> s.pos + Len(b)]
CStepOk(kind, s, op, ok, t) ==
    CASE Wr(op.o) -> /\ ok = (IF CFits(kind, s, op.b) THEN 1 ELSE 0)
                     /\ IF ok = 1 THEN CWritten(s, op.b, t) \/ (op.b = <<>> /\ kind \in Growing /\ t = [buf |-> Upto(s.buf, s.pos), pos |-> s.pos])
                        ELSE \E k \in 0..Len(op.b) : /\ k > 0 => s.pos + k <= Len(s.buf)            \* k bytes copied, of which the cursor may count any number
                                                     /\ t.buf = Put(s.buf, s.pos, SubSeq(op.b, 1, k)) /\ t.pos \in s.pos..(s.pos + k)
      [] op.o = "clear" -> ok = 1 /\ t = [s EXCEPT !.pos = 0]
      [] op.o = "seek" -> ok = 1 /\ t = [s EXCEPT !.pos = op.b[1]]
      [] OTHER -> ok = 1 /\ t = s
Before(s) == SubSeq(s.buf, 1, IF s.pos < Len(s.buf) THEN s.pos ELSE Len(s.buf))
RECURSIVE CBehaviour(_, _, _, _)
CBehaviour(kind, s, ops, r) ==
    IF ops = <<>> THEN r = <<>>
    ELSE /\ r # <<>>
         /\ LET t == [buf |-> Head(r).h, pos |-> Head(r).st[1]] IN
            /\ CStepOk(kind, s, Head(ops), Head(r).ok, t)
            /\ Head(r).c = Before(t)
            /\ CBehaviour(kind, t, Tail(ops), Tail(r))
History(kind, cap, ops, r) == IF kind \in Cursors THEN CBehaviour(kind, CSink(kind, cap), ops, r) ELSE Behaviour(kind, Sink(cap), ops, r)

-----------------------------------------------------------------------------
(* Serializing the values with outcomes outs = << [e, o], .. >> one after another into a sink that takes at most cap  *)
(* bytes (cap < 0: one that fails at some call): es = their errors << <<name, writer payload>>, .. >>, got = content. *)
\* errors a writer failure may turn into: the writer's own, or a format error while collecting a formatted string
WriterErr(x, pay) == x[1] = "FormatError" \/ (x[1] = "Writer" /\ x[2] = pay)
\* whether a sink refused (hit = 1) or not (0; -1 not known) and the last answer
Noticed(es, hit, pay) == /\ hit = 1 => es # <<>> /\ WriterErr(es[Len(es)], pay)
                         /\ hit = 0 => \A j \in 1..Len(es) : es[j][1] # "Writer"
RECURSIVE SerBounded(_, _, _, _, _)
SerBounded(outs, cap, done, es, pay) ==
    IF outs = <<>> THEN es = <<>>
    ELSE IF es = <<>> THEN FALSE
    ELSE LET o == Head(outs) n == Len(done) + Len(o.o) fits == cap < 0 \/ n <= cap IN
         CASE o.e = "" /\ fits /\ Head(es)[1] = "" -> SerBounded(Tail(outs), cap, done \o o.o, Tail(es), pay)
           [] o.e = "" /\ ~fits -> WriterErr(Head(es), pay) /\ Tail(es) = <<>>
           [] o.e # "" -> (Head(es)[1] = o.e \/ WriterErr(Head(es), pay)) /\ Tail(es) = <<>>
           [] OTHER -> cap < 0 /\ WriterErr(Head(es), pay) /\ Tail(es) = <<>>
RECURSIVE AllOut(_)
AllOut(outs) == IF outs = <<>> THEN <<>> ELSE Head(outs).o \o (IF Head(outs).e = "" THEN AllOut(Tail(outs)) ELSE <<>>)
\* values whose errors are all "" are completely there
RECURSIVE Written(_, _)
Written(outs, es) == IF outs = <<>> \/ es = <<>> \/ Head(es)[1] # "" THEN <<>> ELSE Head(outs).o \o Written(Tail(outs), Tail(es))
Clean(outs, es, got) ==
    /\ IsPrefixOf(Written(outs, es), got)
    /\ (\A j \in 1..Len(es) : es[j][1] = "") => got = Written(outs, es)
    \* nothing but a prefix of what an unbounded sink gets
    /\ \/ IsPrefixOf(got, AllOut(outs))
       \/ \E j \in 1..Len(outs) : outs[j].e # ""                 \* how far a failing value gets is not fixed
=============================================================================
