----------------------------- MODULE DigitsTrace -----------------------------
EXTENDS Digits, TraceBase
VARIABLES e, l, bad
vars == <<e, l, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "Recode" /\ Recodes(o.digits, o.x, o.w)
     THEN l' = l + 1 /\ UNCHANGED <<e, bad>>
     ELSE bad' = TRUE /\ Reject(e, l, "digits do not recode the input", IF o.op = "Recode" THEN Total(o.digits) ELSE "") /\ UNCHANGED <<e, l>>
Spec == Init /\ [][Step]_vars
=============================================================================
