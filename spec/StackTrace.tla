----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, TraceBase
VARIABLES e, l, s, bad
vars == <<e, l, s, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ s = <<>> /\ bad = FALSE
Go(t) == l' = l + 1 /\ s' = t /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, s>>
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE LET t == IF Refused(s, o) THEN s ELSE After(s, o) IN
          IF /\ o.out = (IF Refused(s, o) THEN "panic" ELSE "ok")
             /\ ~Refused(s, o) => o.got = Got(s, o)
             /\ o.post = t /\ o.len = Len(t) /\ o.empty = (t = <<>>) /\ o.kept
          THEN Go(t) ELSE Stop("stack", [post |-> t, refused |-> Refused(s, o)])
Spec == Init /\ [][Step]_vars
=============================================================================
