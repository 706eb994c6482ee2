-------------------------------- MODULE Stack --------------------------------
(* A stack is a sequence s; its last element is the top. Peek(0) is the top. *)
EXTENDS Integers, Sequences
Refused(s, o) == \/ o.op \in {"Pop", "Top", "SetTop"} /\ s = <<>>
                 \/ o.op \in {"Peek", "SetPeek"} /\ ~(0 <= o.pos /\ o.pos < Len(s))
At(s, pos) == s[Len(s) - pos]
After(s, o) == CASE o.op \in {"Push", "PushPtr"} -> Append(s, o.val)
                 [] o.op = "Pop" -> SubSeq(s, 1, Len(s) - 1)
                 [] o.op = "SetTop" -> [s EXCEPT ![Len(s)] = o.val]
                 [] o.op = "SetPeek" -> [s EXCEPT ![Len(s) - o.pos] = o.val]
                 [] OTHER -> s
Got(s, o) == CASE o.op \in {"Pop", "Top"} -> At(s, 0)
               [] o.op = "Peek" -> At(s, o.pos)
               [] OTHER -> 0
=============================================================================
