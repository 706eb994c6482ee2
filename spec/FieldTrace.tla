----------------------------- MODULE FieldTrace -----------------------------
(* Recorded histories of the real field element type must be behaviours of Field. *)
EXTENDS Field, TraceBase

VARIABLES e, l, regs, bad
vars == <<e, l, regs, bad>>

Init == e \in 1..Len(Trace) /\ l = 1 /\ regs = Trace[e].init /\ bad = FALSE

Single == Binary \cup Unary \cup Const \cup Setters \cup Frame \cup {"Exp", "ProdSlice", "SumSlice", "ProdMany", "SumMany"}

Go(r) == l' = l + 1 /\ regs' = r /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, regs>>

Agree(got, want) == \A f \in DOMAIN want : got[f] = want[f]

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE IF o.op \in Single THEN
       IF Refused(regs, o)
       THEN IF o.out = "panic" /\ AfterRefused(regs, o, o.post) THEN Go(o.post) ELSE Stop("division by zero must panic", regs)
       ELSE LET want == After(regs, o) IN
            IF o.out # "ok" THEN Stop("panic", want)
            ELSE IF o.post = want THEN Go(want) ELSE Stop("registers after the call", want)
     ELSE IF o.op = "Sqrt" THEN
       IF RootAllowed(regs, o, o.post) THEN Go(o.post)
       ELSE Stop("square root", [legendre |-> Legendre(regs[o.x]), x |-> regs[o.x], regs |-> regs])
     ELSE IF o.op \in {"BatchInv", "BatchInvSkip"} THEN
       LET want == IF o.op = "BatchInv" THEN BatchInv(regs, o) ELSE BatchInvSkip(regs, o) IN
       IF o.post = want.post /\ o.err = want.err /\ o.zeros = want.zeros /\ o.fine
       THEN Go(o.post) ELSE Stop("simultaneous inversion", want)
     ELSE IF o.op = "View" THEN
       LET want == View(regs[o.x]) IN
       IF Agree(o.got, want) /\ o.post = regs /\ o.fine THEN Go(regs) ELSE Stop("observers disagree with the value", want)
     ELSE IF o.op = "Compare" THEN
       LET want == Compare(regs[o.x], regs[o.y]) IN
       IF Agree(o.got, want) /\ o.post = regs THEN Go(regs) ELSE Stop("comparison", want)
     ELSE IF o.op = "Rep" THEN       \* representation level: equal values <=> equal representation after normalization
       IF o.norm = (regs[o.x] = regs[o.y]) /\ (regs[o.x] = regs[o.y] => o.rerand) /\ o.bytes /\ o.post = regs
       THEN Go(regs) ELSE Stop("representations", regs[o.x] = regs[o.y])
     ELSE Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
