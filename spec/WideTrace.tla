----------------------------- MODULE WideTrace -----------------------------
EXTENDS Wide, TraceBase
VARIABLES e, l, u, w, bad
vars == <<e, l, u, w, bad>>

Init == e \in 1..Len(Trace) /\ l = 1 /\ u = Trace[e].init /\ w = "0" /\ bad = FALSE

Go(u2, w2) == l' = l + 1 /\ u' = u2 /\ w' = w2 /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, u, w>>

Frame(o) == Len(o.post) = Len(u) /\ \A i \in DOMAIN u : i # o.z => o.post[i] = u[i]
Fill(o) == o @@ [z |-> 1, x |-> 1, y |-> 1]

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Fill(Trace[e].ev[l]) IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE IF o.op \in ExactOps THEN
       LET want == Exact(u, w, o) IN
       IF want.out = "panic"
       THEN IF o.out = "panic" /\ Frame(o) /\ (o.op = "WSetV" \/ o.w = w) THEN Go(o.post, o.w) ELSE Stop("must panic", want)
       ELSE IF o.out = "ok" /\ Frame(o) /\ o.post[o.z] = want.z /\ o.w = want.w /\ o.ret = want.ret
            THEN Go(o.post, o.w) ELSE Stop("exact result", want)
     ELSE IF o.op \in DOMAIN ModOps THEN
       IF ~Admissible(u, o) THEN Stop("HARNESS: operand out of range", u)
       ELSE IF Frame(o) /\ ModAllowed(u, o, o.post[o.z]) /\ o.w = w THEN Go(o.post, w)
       ELSE Stop("modular result or range", [value |-> ModValue(u, o), range |-> ModOps[o.op][2]])
     ELSE IF o.op = "WRed" THEN
       IF Frame(o) /\ WRedAllowed(w, o.post[o.z]) /\ o.w = w THEN Go(o.post, w) ELSE Stop("reduction of the double register", BMod(w, P))
     ELSE IF o.op = "InvA" THEN
       IF Frame(o) /\ InvAllowed(u[o.x], u[o.z], o.post[o.z], o.ok) THEN Go(o.post, w) ELSE Stop("inverse", BMod(u[o.x], P) # Zero)
     ELSE IF o.op = "View" THEN
       LET want == View(u[o.x]) IN
       IF (\A f \in DOMAIN want : o.got[f] = want[f]) /\ o.post = u THEN Go(u, w) ELSE Stop("observers", want)
     ELSE IF o.op = "WView" THEN
       IF o.big = w /\ o.dec = BDec(w) /\ o.hex = w THEN Go(u, w) ELSE Stop("observers of the double register", BDec(w))
     ELSE IF o.op = "Compare" THEN
       LET want == Compare(u[o.x], u[o.y]) IN
       IF (\A f \in DOMAIN want : o.got[f] = want[f]) /\ o.post = u THEN Go(u, w) ELSE Stop("comparison", want)
     ELSE IF o.op = "Slide" THEN
       IF SlidingOK(o.ds, u[o.x], o.win) /\ o.post = u THEN Go(u, w) ELSE Stop("sliding window recoding", u[o.x])
     ELSE IF o.op = "SlideBad" THEN
       IF o.out = "panic" /\ o.post = u THEN Go(u, w) ELSE Stop("window size out of range must be refused", "panic")
     ELSE IF o.op = "Reset" THEN (IF Frame(o) /\ o.post[o.z] = o.v THEN Go(o.post, w) ELSE Stop("HARNESS: reset", o.v))
     ELSE IF o.op = "Below" THEN (IF o.got = In("f", u[o.x]) /\ o.post = u THEN Go(u, w) ELSE Stop("comparison with the modulus", In("f", u[o.x])))
     ELSE IF o.op = "Modulus" THEN
       LET want == Derived(o.v) IN
       IF o.post = u /\ (IF want.out = "panic" THEN o.out = "panic"
                         ELSE o.out = "ok" /\ o.re = want.re /\ o.lo = want.lo /\ o.hi = want.hi /\ o.back = o.v)
       THEN Go(u, w) ELSE Stop("constants derived from a modulus", want)
     ELSE IF o.op = "Order" THEN
       IF o.post = u /\ (IF o.v = Zero THEN o.out = "panic" ELSE o.out = "ok" /\ DyadicOrder(o.v, o.ret)) THEN Go(u, w) ELSE Stop("order of a root of unity", o.v)
     ELSE IF o.op = "Sample" THEN
       IF o.out = "ok" /\ In("f", o.val) /\ In("f", o.more) /\ o.same /\ o.peer /\ (o.nonzero => o.val # Zero /\ o.more # Zero)
       THEN Go(u, w) ELSE Stop("sampled element", o.fn)
     ELSE Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
