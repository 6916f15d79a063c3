------------------------------- MODULE InPlace --------------------------------
(* The decoder's buffer.  Strings and byte strings are decoded where they are: what is read at r is written back at w,  *)
(* and slices of the buffer are handed out that live on while decoding continues behind them.  This machine does just   *)
(* that, lexeme by lexeme, for an array of strings and byte strings; the laws say why handing out the slices is safe:   *)
(* writing never overtakes reading, so nothing unread is destroyed; slices never overlap; what was handed out is never  *)
(* touched again; and what a slice holds is what the (purely functional) decoder JsonText says the lexemes mean.        *)
EXTENDS JsonText, IOUtils, Json

Fl == CASE IOEnv.SCOPE = "plain" -> 0 [] IOEnv.SCOPE = "hex" -> 1 [] OTHER -> 2            \* how byte strings are read
Depth == atoi(IOEnv.DEPTH)

L(t, d) == [t |-> t, d |-> d]                                \* a lexeme and what it means
StrLex == { L(<<97>>, <<97>>), L(<<92, 110>>, <<10>>), L(<<92, 34>>, <<34>>), L(<<92, 92>>, <<92>>), L(<<195, 169>>, <<195, 169>>), L(<<92,117,48,48,52,49>>, <<65>>),
            L(<<92,117,48,48,69,57>>, <<195, 169>>), L(<<92,117,50,48,97,99>>, <<226, 130, 172>>), L(<<92,117,100,56,51,68,92,117,68,69,48,48>>, <<240, 159, 152, 128>>) }
HexLex == { L(<<48,48>>, <<0>>), L(<<70,102>>, <<255>>), L(<<50,50>>, <<34>>) }
B64Lex == { L(<<81,85,74,68>>, <<65,66,67>>), L(<<47,47,47,47>>, <<255,255,255>>) }
B64End2 == { L(<<81,81>>, <<65>>), L(<<81,81,61,61>>, <<65>>), L(<<47,47,56,61>>, <<255,255>>), L(<<81,85,73>>, <<65,66>>) }
ArrLex == { L(<<48>>, <<0>>), L(<<50,53,53>>, <<255>>), L(<<32,55>>, <<7>>), L(<<51,52,32>>, <<34>>) }

VARIABLES txt,   \* all that was read
          mem,   \* the buffer as it is now (what was read is not needed any more)
          w, b,  \* next position written, begin of the slice under construction
          mode,  \* "out", "str", "raw" (bytes as string), "hex", "b64", "b64t" (nothing but the end may follow), "arr", "arr," (a number must follow)
          out,   \* slices handed out: << begin, length, content then >>
          kinds, \* types of the elements so far
          n
vars == <<txt, mem, w, b, mode, out, kinds, n>>
R == Len(txt) + 1
Init == txt = <<LB>> /\ mem = <<LB>> /\ w = 0 /\ b = 0 /\ mode = "out" /\ out = <<>> /\ kinds = <<>> /\ n = 0

\* the lexeme comes in, its meaning goes where the machine writes
Read(t) == txt' = txt \o t
Put(t, d) == LET m == mem \o t IN
             /\ Read(t) /\ mem' = SubSeq(m, 1, w - 1) \o d \o Tail2(m, w + Len(d))
             /\ w' = w + Len(d) /\ UNCHANGED <<b, out, kinds>>
Start(t, md, k) == Read(t) /\ mem' = mem \o t /\ b' = Len(txt) + Len(t) + 1 /\ w' = b' /\ mode' = md /\ kinds' = Append(kinds, Leaf(k)) /\ UNCHANGED out
Finish(t) == Read(t) /\ mem' = mem \o t /\ mode' = "out" /\ out' = Append(out, <<b, w - b, SubSeq(mem, b, w - 1)>>) /\ UNCHANGED <<w, b, kinds>>
Sep == IF kinds = <<>> THEN <<>> ELSE <<CO>>
Begin == /\ mode = "out"
         /\ \/ Start(Append(Sep, QU), "str", "str")
            \/ Start(Append(Sep, QU), CASE Fl = 0 -> "raw" [] Fl = 1 -> "hex" [] OTHER -> "b64", "bytes")
            \/ Start(Append(Sep, LB), "arr", "bytes")
Lexeme == CASE mode \in {"str", "raw"} -> mode' = mode /\ \E x \in StrLex : Put(x.t, x.d)
            [] mode = "hex" -> mode' = mode /\ \E x \in HexLex : Put(x.t, x.d)
            [] mode = "b64" -> \/ mode' = mode /\ \E x \in B64Lex : Put(x.t, x.d)
                               \/ mode' = "b64t" /\ \E x \in B64End2 : Put(x.t, x.d)
            [] mode = "arr" -> mode' = mode /\ \E x \in ArrLex : Put((IF w > b THEN <<CO>> ELSE <<>>) \o x.t, x.d)
            [] OTHER -> FALSE
End == \/ mode \in {"str", "raw", "hex", "b64", "b64t"} /\ Finish(<<QU>>)
       \/ mode = "arr" /\ Finish(<<RB>>)
Next == n < Depth /\ n' = n + 1 /\ (Begin \/ Lexeme \/ End)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* writing stays behind reading
Behind == mode # "out" => b <= w /\ w <= R
\* slices lie inside what was read, apart from one another
Apart == /\ \A j \in 1..Len(out) : 1 < out[j][1] /\ out[j][1] + out[j][2] <= R
         /\ \A j \in 1..Len(out), k \in 1..Len(out) : j < k => out[j][1] + out[j][2] <= out[k][1]
         /\ mode # "out" => \A j \in 1..Len(out) : out[j][1] + out[j][2] <= b
\* what was handed out is still what it was
Kept == \A j \in 1..Len(out) : SubSeq(mem, out[j][1], out[j][1] + out[j][2] - 1) = out[j][3]
\* and is what the decoder says
E0 == [fl |-> Fl, ft |-> <<>>, fk |-> "f64"]
Means == mode = "out" => LET r == JsFull(Wrap("tuple", kinds), Append(txt, RB), E0) IN
                         r.e = "" /\ Len(r.v.c) = Len(out) /\ \A j \in 1..Len(out) : r.v.c[j].b = out[j][3]
\* the slice is no longer than its text: there is always room
Room == \A j \in 1..Len(out) : out[j][2] <= Len(txt)
Laws == Behind /\ Apart /\ Kept /\ Means /\ Room
Emit == mode = "out" /\ out # <<>> => PrintT(ToJson([t |-> Append(txt, RB), sh |-> Wrap("tuple", kinds), fl |-> Fl]))
=============================================================================
