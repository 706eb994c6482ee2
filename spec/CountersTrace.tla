---------------------------- MODULE CountersTrace ----------------------------
(* Recorded call counter histories must be behaviours of Counters. *)
EXTENDS Counters, TraceBase
VARIABLES e, l, c, bad
vars == <<e, l, c, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ c = <<>> /\ bad = FALSE
Go(cc) == l' = l + 1 /\ c' = cc /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, c>>
ToSeq(cc, S) == { x \in S : x \in DOMAIN cc }
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE IF o.op = "Get" THEN
       IF o.id \in DOMAIN c
       THEN IF o.ok /\ o.got = Total(c, o.id) THEN Go(c) ELSE Stop("value", Total(c, o.id))
       ELSE IF ~o.ok /\ o.got = 0 THEN Go(c) ELSE Stop("unknown counter", 0)
     ELSE IF o.op = "Exists" THEN
       IF o.got = Created(c, o.id) THEN Go(c) ELSE Stop("existence", Created(c, o.id))
     ELSE IF o.op = "Report" THEN
       IF ReportOK(o.list, Forest(c, o.pos, FALSE, o.byName)) THEN Go(c) ELSE Stop("report", Forest(c, o.pos, FALSE, o.byName))
     ELSE IF o.op = "Structure" THEN
       IF /\ ReportOK(o.list, Forest(c, FALSE, TRUE, FALSE))
          /\ \A i \in DOMAIN o.list : (~o.list[i].hid) => (o.list[i].rec = UnderHidden(o.list, i))
          /\ Len(o.unseen) = Cardinality(Range(o.unseen))
          /\ Range(o.unseen) = { [tag |-> x, hid |-> ~c[x].disp, ini |-> c[x].init] : x \in DOMAIN c \ Shown(c) }
       THEN Go(c) ELSE Stop("structure report", [f |-> Forest(c, FALSE, TRUE, FALSE), unseen |-> DOMAIN c \ Shown(c)])
     ELSE IF Refused(c, o) THEN IF o.out = "panic" THEN Go(c) ELSE Stop("must be refused", "panic")
     ELSE IF o.out = "ok" THEN Go(After(c, o)) ELSE Stop("refused", "ok")
Spec == Init /\ [][Step]_vars
=============================================================================
