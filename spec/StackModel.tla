----------------------------- MODULE StackModel -----------------------------
(* All operation sequences up to Depth.  Also the generator of the replayed behaviours. *)
EXTENDS Stack, TLC, Json
CONSTANT Depth
VARIABLES s, hist, pending
vars == <<s, hist, pending>>
Ops == { [op |-> k, pos |-> 0, val |-> v] : k \in {"Push", "PushPtr", "SetTop"}, v \in {1} }
   \cup { [op |-> k, pos |-> 0, val |-> 0] : k \in {"Pop", "Top"} }
   \cup { [op |-> "Peek", pos |-> p, val |-> 0] : p \in {-1, 1, 2} } \cup { [op |-> "SetPeek", pos |-> p, val |-> 5] : p \in {1} }
Init == s = <<>> /\ hist = <<>> /\ pending = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ hist' = Append(hist, o)
                          /\ s' = IF Refused(s, o) THEN s ELSE After(s, o)
                          /\ pending' = IF Refused(s, o) THEN pending
                                        ELSE pending + (IF o.op \in {"Push", "PushPtr"} THEN 1 ELSE IF o.op = "Pop" THEN -1 ELSE 0)
Spec == Init /\ [][Next]_vars
(* length accounting; a pop undoes a push *)
Length == Len(s) = pending
Lifo == \A v \in {1, 2} : LET p == After(s, [op |-> "Push", val |-> v]) IN Got(p, [op |-> "Pop"]) = v /\ After(p, [op |-> "Pop"]) = s
Emit == Len(hist) = Depth => PrintT("ZZGEN " \o ToJson(hist))
=============================================================================
