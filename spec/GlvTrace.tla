------------------------------ MODULE GlvTrace ------------------------------
EXTENDS Glv, TraceBase
ASSUME BasisOK
ASSUME BMulMod(Lambda, Lambda, Order) = BMod("-2", Order)

VARIABLES e, l, bad
vars == <<e, l, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l]
         why == IF o.op # "GLV" THEN "panic"
                ELSE IF o.after # o.t THEN "the input exponent changed"
                ELSE IF ~Represents(o.u, o.v, o.t) THEN "u + v*lambda # t"
                ELSE IF ~Bounded(o.u, o.v) THEN "bound exceeded"
                ELSE IF ~Shortest(o.u, o.v) THEN "not shortest"
                ELSE IF o.su # BCmp(o.u, "0") \/ o.sv # BCmp(o.v, "0") THEN "sign"
                ELSE ""
     IN IF why = "" THEN l' = l + 1 /\ UNCHANGED <<e, bad>>
        ELSE bad' = TRUE /\ Reject(e, l, why, Bound) /\ UNCHANGED <<e, l>>
Spec == Init /\ [][Step]_vars
=============================================================================
