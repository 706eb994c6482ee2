-------------------------- MODULE FaultyBufferTrace --------------------------
EXTENDS FaultyBuffer, TraceBase
VARIABLES e, l, s, bad
vars == <<e, l, s, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ s = Fresh /\ bad = FALSE
Go(t) == l' = l + 1 /\ s' = t /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, s>>
Judge(o, r) == IF o.out = "ok" /\ o.n = r.n /\ o.err = r.err /\ o.read = r.data /\ o.rest = r.st.buf /\ o.kept THEN Go(r.st) ELSE Stop("buffer", r)
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l]
         thr == Trace[e].thr
     IN CASE o.op = "UNEXPECTED_PANIC" -> Stop("panic", o.msg)
          [] o.op = "Read" -> Judge(o, Read(s, thr, o.len))
          [] o.op = "Write" -> Judge(o, Write(s, thr, o.data))
          [] o.op = "Reset" -> Judge(o, Result(Reset(s), 0, "nil", <<>>))
          [] o.op = "SetContent" -> Judge(o, Result(SetContent(o.data), 0, "nil", <<>>))
          [] o.op = "Invalid" -> IF o.out = "panic" THEN Go(s) ELSE Stop("an invalid buffer works", o.what)
          [] OTHER -> Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
