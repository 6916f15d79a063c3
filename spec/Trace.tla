-------------------------------- MODULE Trace --------------------------------
(* Conformance of the implementation: every event (a stimulus, and what the real code did with it) recorded in the     *)
(* file IOEnv.TRACE has to be a behaviour of the specification.  Event fields: q = property, op, the stimulus' own     *)
(* fields, r = result, ft/fs = float tables, ns = no_std configuration, fk = kind of self-describing floats.           *)
EXTENDS Cursor, IOUtils, Json
S == INSTANCE Sinks

Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
Chunk == 25
Chunks == (N + Chunk - 1) \div Chunk

Crashed(r) == "x" \in DOMAIN r
Env(ev) == [fl |-> ev.fl, ft |-> ev.ft, fk |-> ev.fk]
\* an error has to be an error; the names in strict have to agree
Exact(ev) == ev.q \in {"C23", "C24"}
Strict(ev) == IF ev.q = "C05" THEN {"TrailingCharacters"}
              ELSE IF ev.q = "C13" THEN {"TrailingElements"}
              ELSE IF ev.q \in {"C14", "C15"} THEN {"UnexpectedEof"} ELSE {}
ErrAs(e, g, strict) == g # "" /\ (e \in strict \/ g \in strict => e = g)

-----------------------------------------------------------------------------
(* serialization *)
JExp(ev) == J!JsSer(ev.v, ev.fl, ev.fs)
MExp(ev) == M!MpSer(ev.v, ev.fl, ev.ns = 1)
SerStrict == {"InvalidKeyType", "SeqLength", "MapLength", "FieldSkipped", "SerializeError", "FormatError", "Writer"}
\* the output of a failing value is only fixed as far as it cannot contain anything else
SerAs(x, r) == IF x.e = "" THEN r.e = "" /\ r.o = x.o /\ r.s # 0
               ELSE r.s = 1 /\ ErrAs(x.e, r.e, SerStrict) /\ (IsPrefixOf(r.o, x.o) \/ IsPrefixOf(x.o, r.o))
JserOk(ev) == LET x == JExp(ev) IN
              /\ SerAs(x, ev.r)
              /\ ev.r.e = "" => (ev.r.s = 2) = (ev.fl = 3 /\ ~IsUtf8(ev.r.o))
MserOk(ev) == LET x == MExp(ev) IN
              /\ SerAs(x, ev.r)
              \* the headers announce exactly what follows
              /\ ev.r.e = "" => LET k == M!MpSkip(ev.r.o, 1) IN k.e = "" /\ k.p = Len(ev.r.o) + 1
BigOk(ev) ==
    LET n == ev.n r == ev.r
        h == IF ev.fmt = "j" THEN <<>>
             ELSE CASE ev.kind \in {"str", "cstr"} -> M!MpStrHdr(n) [] ev.kind = "bytes" -> M!MpBinHdr(n)
                    [] ev.kind = "map" -> M!MpMapHdr(n) [] OTHER -> M!MpArrHdr(n)
    IN r.e = "" /\ (ev.fmt = "j" \/ r.h = h) /\ r.body = 1 /\ r.back = 1 /\ r.cut = 1 /\ r.ign = 1

-----------------------------------------------------------------------------
(* decoding *)
DeExp(ev) == IF ev.op \in {"jde", "jpre"} THEN J!JsFull(ev.sh, ev.in, Env(ev)) ELSE M!MpDe(ev.sh, ev.in, 1)
Disjoint(sp) == \A a, b \in 1..Len(sp) : a < b /\ sp[a][2] > 0 /\ sp[b][2] > 0
                    => sp[a][1] + sp[a][2] <= sp[b][1] \/ sp[b][1] + sp[b][2] <= sp[a][1]
Spans(ev) == /\ \A a \in 1..Len(ev.r.sp) : /\ ev.r.sp[a][2] > 0 => ev.r.sp[a][1] >= 0 /\ ev.r.sp[a][1] + ev.r.sp[a][2] <= Len(ev.in)
                                           /\ ev.r.sp[a][3] = 1
             /\ Disjoint(ev.r.sp)
Accepted(ev, x) == ev.r.e = "" /\ Same(x.v, ev.r.v) /\ ev.r.ag = 1
                   /\ ev.r.n = (IF ev.op = "jde" THEN Len(ev.in) - x.p + 1 ELSE x.p - 1)
\* what is right has to be read right
DeRight(ev) == LET x == DeExp(ev) IN
               IF x.e = "" THEN Accepted(ev, x)
               ELSE x.e = "DeserializeError" => ev.r.e # "" /\ ev.r.ag = 1
\* what is wrong has to be refused
DeWrong(ev) == LET x == DeExp(ev) IN
               /\ x.e # "" => ErrAs(x.e, ev.r.e, {"TrailingCharacters"})
               /\ ev.r.e = "" => J!WfText(ev.in, TRUE)
DeBoth(ev, strict) == LET x == DeExp(ev) IN
               IF x.e = "" THEN Accepted(ev, x) ELSE ErrAs(x.e, ev.r.e, strict) /\ (Exact(ev) => x.e = ev.r.e) /\ ev.r.ag = 1
\* the same value far into the input, behind n units of white space or behind a long element of a tuple: nothing but
\* the offsets may change
FarOk(ev) ==
    LET js == ev.fmt = "j" r == ev.r
        x == IF js THEN J!JsFull(ev.sh, ev.in, Env(ev)) ELSE M!MpDe(ev.sh, ev.in, 1)
        off == Len(ev.pre) + ev.n * Len(ev.unit) + Len(ev.post)
        sp == IF ev.ulen > 0 THEN Tail(r.sp) ELSE r.sp
    IN IF x.e # "" THEN r.e # "" /\ r.ag = 1 /\ (~(js /\ ev.wrap = 1) => ErrAs(x.e, r.e, Strict(ev)) /\ (Exact(ev) => x.e = r.e))
       ELSE /\ r.e = "" /\ Same(x.v, r.v) /\ r.ag = 1 /\ r.cn = 1
            /\ r.n = (IF ~js THEN off + x.p - 1 ELSE IF ev.wrap = 1 THEN Len(ev.tail) - 1 ELSE Len(ev.in) - x.p + 1)
            /\ ev.ulen > 0 => r.sp[1] = <<ev.uoff, ev.ulen, 1>>
            /\ \A a \in 1..Len(sp) : sp[a][3] = 1 /\ (sp[a][2] > 0 => sp[a][1] >= off /\ sp[a][1] + sp[a][2] <= off + Len(ev.in))
            /\ Disjoint(sp)
\* truncation: r.es[k+1] = error on the first k bytes
PreOk(ev) == /\ Len(ev.r.es) = Len(ev.in)
             /\ \A k \in 1..Len(ev.in) :
                  LET in == SubSeq(ev.in, 1, k - 1)
                      x == IF ev.op = "jpre" THEN J!JsFull(ev.sh, in, Env(ev)) ELSE M!MpDe(ev.sh, in, 1)
                  IN IF x.e = "UnexpectedEof" \/ Exact(ev) THEN ev.r.es[k] = x.e
                     ELSE x.e # "" => ev.r.es[k] # ""
\* what is skipped, and what comes after it
RoundTrip(ev) ==
    LET json == ev.op = "jrt"
        x == IF json THEN JExp(ev) ELSE MExp(ev)
        c == Canon(ev.v, json)
    IN IF x.e # "" THEN ev.r.e # ""
       ELSE /\ ev.r.e = "" /\ ev.r.d.e = "" /\ ev.r.d.ag = 1
            /\ Same(c, ev.r.d.v)
            /\ ev.r.d.n = (IF json THEN 0 ELSE Len(ev.r.o))

-----------------------------------------------------------------------------
(* types with derived (or the standard library's) implementations: r.w = the calls the value makes of a serializer,    *)
(* as a value; r.o what was written; r.back = 1: reading it gave an equal value                                         *)
TyOk(ev) ==
    LET x == IF ev.fmt = "j" THEN J!JsSer(ev.r.w, ev.fl, ev.fs) ELSE M!MpSer(ev.r.w, ev.fl, ev.ns = 1) IN
    IF x.e # "" THEN ev.r.e = x.e
    ELSE ev.r.e = "" /\ ev.r.o = x.o /\ ev.r.e2 = "" /\ ev.r.back = 1
\* any input read into such a type
TydOk(ev) ==
    LET x == IF ev.fmt = "j" THEN J!JsFull(ev.sh, ev.in, Env(ev)) ELSE M!MpDe(ev.sh, ev.in, 1) IN
    IF x.e # "" THEN ev.r.e # "" ELSE ev.r.e = "" /\ Same(x.v, ev.r.v) /\ ev.r.n = (IF ev.fmt = "j" THEN Len(ev.in) ELSE x.p - 1)

-----------------------------------------------------------------------------
(* what an error says: its variant; own = it carries what a (De)Serialize implementation said (msg, when has = 1: the   *)
(* configuration keeps messages); text = its description                                                                *)
HasText(t, m) == \E j \in 1..(Len(t) - Len(m) + 1) : SubSeq(t, j, j + Len(m) - 1) = m
ValueRefuses == <<118, 97, 108, 117, 101, 32, 114, 101, 102, 117, 115, 101, 115>>        \* what a fail value says when it is given no message
RECURSIVE FailMsgs(_)
FailMsgs(v) == (IF v.k = "fail" THEN {IF v.b = <<>> THEN ValueRefuses ELSE v.b} ELSE {}) \cup UNION {FailMsgs(v.c[j]) : j \in 1..Len(v.c)}
SaysSo(r, own, msgs) ==
    /\ r.own = (IF own THEN 1 ELSE 0)
    /\ r.text # <<>>
    /\ own /\ r.has = 1 /\ msgs # {} => r.msg \in msgs /\ HasText(r.text, r.msg)
MyErr(at) == <<109, 105, 110, 101>> \o NatDigits(at + 7)             \* the description of the failing writer's error
ErrOk(ev) ==
    IF "in" \in DOMAIN ev
    THEN LET x == IF ev.fmt = "j" THEN J!JsFull(ev.sh, ev.in, Env(ev)) ELSE M!MpDe(ev.sh, ev.in, 1) IN
         /\ ev.r.e = x.e
         /\ x.e # "" => SaysSo(ev.r, x.e = "DeserializeError", IF x.v.k = "msg" THEN {x.v.b} ELSE {})
    ELSE LET x == IF ev.fmt = "j" THEN J!JsSer(ev.v, ev.fl, ev.fs) ELSE M!MpSer(ev.v, ev.fl, ev.ns = 1) IN
         /\ x.e = "" => ev.r.e \in {"", "Writer", "FormatError"}
         /\ x.e # "" => ev.r.e \in {x.e, "Writer", "FormatError"}
         /\ ev.r.e # "" => SaysSo(ev.r, ev.r.e = "SerializeError", FailMsgs(ev.v))
         /\ ev.r.e = "Writer" => ev.r.text = MyErr(ev.cap)           \* the writer's error is passed on
(* every error variant describes itself, in words of its own; the last of a decoder's list and of a serializer's is the user's own error *)
TextsOk(ev) ==
    LET own(s) == Len(s) > 0 /\ (\A k \in 1..Len(s): Len(s[k]) > 0) /\ Cardinality({s[k]: k \in 1..Len(s)}) = Len(s)
        mine(s) == ev.r.has = 1 => HasText(s[Len(s)], <<109, 105, 110, 101>>)
        has(s, t) == \E k \in 1..Len(s): s[k] = t IN
    /\ \A q \in 1..Len(ev.r.t): own(ev.r.t[q]) /\ mine(ev.r.t[q])
    /\ Len(ev.r.full) > 0 /\ has(ev.r.t[3], ev.r.full) /\ has(ev.r.t[4], ev.r.full)
-----------------------------------------------------------------------------
(* codecs *)
B64eOk(ev) == ev.r.o = J!B64Enc(ev.b) /\ ev.r.n = J!B64Pad(ev.b)
B64dOk(ev) == LET e == J!B64End(ev.b, 1) - 1 d == J!B64Dec(SubSeq(ev.b, 1, e)) IN
              /\ ev.r.u = e /\ ev.r.d = Len(d) /\ SubSeq(ev.r.o, 1, Len(d)) = d
              /\ Len(ev.r.o) = Len(ev.b)
              /\ Tail2(ev.r.o, e + 1) = Tail2(ev.b, e + 1)                \* what is not encoded data stays

-----------------------------------------------------------------------------
SinkOk(ev) == S!History(ev.kind, ev.cap, ev.ops, ev.r.r)
SerfOk(ev) ==
    LET outs == [j \in 1..Len(ev.vs) |-> IF ev.fmt = "j" THEN J!JsSer(ev.vs[j], ev.fl, ev.fs) ELSE M!MpSer(ev.vs[j], ev.fl, ev.ns = 1)]
        cap == IF ev.kind \in {"calls", "sticky"} \cup S!Growing THEN -1 ELSE ev.cap
    IN /\ IF ev.kind \in S!Growing THEN S!SerBounded(outs, 1000000, <<>>, ev.r.es, "")
          ELSE S!SerBounded(outs, cap, <<>>, ev.r.es, ev.pay)
       /\ S!Clean(outs, ev.r.es, ev.r.o)
       /\ S!Noticed(ev.r.es, ev.r.hit, ev.pay)
       /\ ev.r.ag = 1
DeepOk(ev) == ev.want = "*" \/ ev.r.e = ev.want                  \* "*": an answer, whatever it is

-----------------------------------------------------------------------------
(* nesting, to any depth: the specification reads (writes) two and three layers; the real code n of them, reported layer *)
(* by layer (outer = what is around, ls = the different layers, k = how many, core), a layer's inside being a "hole"     *)
Hole == Leaf("hole")
RECURSIVE Fill(_, _)
Fill(l, w) == IF l.k = "hole" THEN w ELSE [l EXCEPT !.c = [j \in 1..Len(l.c) |-> Fill(l.c[j], w)]]
RECURSIVE Nest(_, _, _)
Nest(l, n, core) == IF n = 0 THEN core ELSE Fill(l, Nest(l, n - 1, core))
RECURSIVE SubAt(_, _)
SubAt(v, at) == IF at = <<>> THEN v ELSE SubAt(v.c[at[1]], Tail(at))
RECURSIVE CutAt(_, _)
CutAt(v, at) == IF at = <<>> THEN Hole ELSE [v EXCEPT !.c[at[1]] = CutAt(@, Tail(at))]
RECURSIVE InLayers(_, _, _, _)
\* v is k layers of the layer the code reports around its core
InLayers(v, k, at, r) == IF k = 0 THEN Same(v, r.core) ELSE Same(CutAt(v, at), r.ls[1]) /\ InLayers(SubAt(v, at), k - 1, at, r)
AsLayered(v, k, ev) == /\ Len(ev.r.ls) = 1 /\ ev.r.k = ev.n
                       /\ Same(CutAt(v, ev.oat), ev.r.outer) /\ InLayers(SubAt(v, ev.oat), k, ev.at, ev.r)
NestIn(ev, k) == ev.pre \o Cat([j \in 1..k |-> ev.open]) \o ev.mid \o Cat([j \in 1..k |-> ev.close]) \o ev.post
NestDe(ev, k) == LET sh == Fill(ev.osh, Nest(ev.sh, k, ev.csh)) in == NestIn(ev, k) IN
                 IF ev.fmt = "j" THEN J!JsFull(sh, in, Env(ev)) ELSE M!MpDe(sh, in, 1)
NestOk(ev) ==
    \A k \in {2, 3} :
        LET x == NestDe(ev, k) r == ev.r IN
        IF x.e # "" THEN ErrAs(x.e, r.e, {"UnexpectedEof", "TrailingCharacters", "TrailingElements"}) /\ (Exact(ev) => x.e = r.e)
        ELSE /\ r.e = "" /\ r.rest = (IF ev.fmt = "j" THEN 0 ELSE Len(NestIn(ev, k)) - x.p + 1)
             /\ IF ev.peel = 1 THEN AsLayered(x.v, k, ev) ELSE Same(x.v, r.v)
NestSerOk(ev) ==
    \A k \in {2, 3} :
        LET v == Nest(ev.v, k, ev.cv)
            Ser(z) == IF ev.fmt = "j" THEN J!JsSer(z, ev.fl, ev.fs) ELSE M!MpSer(z, ev.fl, ev.ns = 1)
            x == Ser(v) r == ev.r IN
        /\ x.e = "" /\ r.e = "" /\ r.s = 1
        /\ r.p = ev.n /\ r.q = ev.n
        /\ x.o = Cat([j \in 1..k |-> ev.open]) \o r.mid \o Cat([j \in 1..k |-> ev.close])
        /\ r.e2 = "" /\ r.rest = 0 /\ AsLayered(Canon(v, ev.fmt = "j"), k, ev)

-----------------------------------------------------------------------------
(* feature configurations: rs = the distinct results, each with the configurations that gave it *)
CfgSame(ev) == \A a, b \in 1..Len(ev.rs) : ev.rs[a] = ev.rs[b]

Accept(ev) ==
    IF ev.op = "cfg" THEN CfgSame(ev)
    ELSE IF Crashed(ev.r) THEN FALSE
    ELSE CASE ev.q = "C18" /\ ev.op # "deep" -> TRUE                         \* an answer, whatever it is
           [] ev.op = "jser" -> JserOk(ev)
           [] ev.op = "mser" -> MserOk(ev)
           [] ev.op = "big" -> BigOk(ev)
           [] ev.op = "jde" /\ ev.q = "C04" -> DeRight(ev)
           [] ev.op = "jde" /\ ev.q = "C05" -> DeWrong(ev)
           [] ev.op = "jde" /\ ev.q = "C07" -> Spans(ev) /\ ev.r.cn = 1 /\ DeRight(ev)
           [] ev.op = "mde" /\ ev.q = "C14" -> DeRight(ev) /\ Spans(ev) /\ DeBoth(ev, {"UnexpectedEof"})
           [] ev.op \in {"jde", "mde"} -> DeBoth(ev, Strict(ev))
           [] ev.op \in {"jpre", "mpre"} -> PreOk(ev)
           [] ev.op \in {"jrt", "mrt"} -> RoundTrip(ev)
           [] ev.op = "ty" -> TyOk(ev)
           [] ev.op = "tyd" -> TydOk(ev)
           [] ev.op = "b64e" -> B64eOk(ev)
           [] ev.op = "b64d" -> B64dOk(ev)
           [] ev.op = "hexs" -> ev.r.e = "" /\ ev.r.o = J!HexEnc(ev.b)
           [] ev.op = "sink" -> SinkOk(ev)
           [] ev.op = "serf" -> SerfOk(ev)
           [] ev.op = "jcur" -> JBehaviour(ev.in, 1, SubSeq(ev.ops, 1, Len(ev.r.r)), ev.r.r, Env(ev), Exact(ev)) /\ Spans(ev)
           [] ev.op = "mcur" -> MBehaviour(ev.in, 1, SubSeq(ev.ops, 1, Len(ev.r.r)), ev.r.r, Exact(ev)) /\ Spans(ev)
           [] ev.op = "deep" -> DeepOk(ev)
           [] ev.op = "err" -> ErrOk(ev)
           [] ev.op = "far" -> FarOk(ev)
           [] ev.op = "nest" -> NestOk(ev)
           [] ev.op = "nestser" -> NestSerOk(ev)
           [] ev.op = "texts" -> TextsOk(ev)
           [] OTHER -> FALSE

VARIABLES c, i
vars == <<c, i>>
Init == c = 0 /\ i = 0
Next == \/ c = 0 /\ c' \in 1..Chunks /\ i' = 0
        \/ c > 0 /\ i = 0 /\ c' = c /\ i' \in ((c - 1) * Chunk + 1)..(IF c * Chunk < N THEN c * Chunk ELSE N)
Spec == Init /\ [][Next]_vars
Conforms == i = 0 \/ Accept(Events[i])
=============================================================================
