---------------------------- MODULE ExponentTrace ----------------------------
(* Recorded histories of the real exponent type must be behaviours of Exponent. *)
EXTENDS Exponent, TraceBase

VARIABLES e, l, regs, bad
vars == <<e, l, regs, bad>>

Init == /\ e \in 1..Len(Trace)
        /\ l = 1
        /\ regs = Trace[e].init
        /\ bad = FALSE

Ev == Trace[e].ev[l]

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Ev IN
     IF o.op = "View"
     THEN LET want == View(regs[o.x]) IN
          IF \A f \in DOMAIN want : o.got[f] = want[f]
          THEN l' = l + 1 /\ UNCHANGED <<e, regs, bad>>
          ELSE bad' = TRUE /\ Reject(e, l, "accessors disagree with the value", want) /\ UNCHANGED <<e, l, regs>>
     ELSE IF o.op = "UNEXPECTED_PANIC"
     THEN bad' = TRUE /\ Reject(e, l, "panic", o.msg) /\ UNCHANGED <<e, l, regs>>
     ELSE LET want == After(regs, o) IN
          IF o.post = want
          THEN l' = l + 1 /\ regs' = want /\ UNCHANGED <<e, bad>>
          ELSE bad' = TRUE /\ Reject(e, l, "registers after the call", want) /\ UNCHANGED <<e, l, regs>>
Spec == Init /\ [][Step]_vars
=============================================================================
