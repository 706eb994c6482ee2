----------------------------- MODULE FeSerTrace -----------------------------
(* Recorded (de)serialization histories must be behaviours of FeSer. *)
EXTENDS FeSer, TraceBase

VARIABLES e, l, regs, w, r, bad
vars == <<e, l, regs, w, r, bad>>

NoW == [bytes |-> <<>>, cap |-> 0, late |-> FALSE]
NoR == [data |-> <<>>, pos |-> 0, end |-> "eof"]
Init == e \in 1..Len(Trace) /\ l = 1 /\ regs = Trace[e].init /\ w = NoW /\ r = NoR /\ bad = FALSE

Go(rg, ww, rr) == l' = l + 1 /\ regs' = rg /\ w' = ww /\ r' = rr /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, regs, w, r>>

Errs(x) == IF x.err = "" THEN <<>> ELSE <<x.err>>

WroteOK(o, x) == /\ o.errs = Errs(x) /\ o.n = x.n /\ o.fine
                 /\ x.err # "" => (o.dn = x.n /\ o.dpart = x.part)

ReadOK(o, x) ==
  /\ o.errs = Errs(x) /\ o.n = x.n /\ o.fine
  /\ x.err # "" => (o.dn = x.n /\ o.dpart = x.part /\ o.dseen = x.seen)
  /\ (x.err = "len") => o.dnil
  /\ (x.err \in {"", "nonnorm"} /\ o.mode = "get") => o.pre = x.pre
  /\ o.post = (IF x.upd THEN [regs EXCEPT ![o.z] = x.v] ELSE regs)
  /\ ~x.upd => o.kept

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE IF o.op = "Set" THEN Go([regs EXCEPT ![o.z] = o.v], w, r)
     ELSE IF o.op = "Writer" THEN Go(regs, [bytes |-> <<>>, cap |-> o.cap, late |-> o.late], r)
     ELSE IF o.op = "Reader" THEN Go(regs, w, [data |-> o.data, pos |-> 0, end |-> o.end])
     ELSE IF o.op = "Reread" THEN Go(regs, w, [data |-> w.bytes, pos |-> 0, end |-> "eof"])
     ELSE IF o.op = "Ser" THEN
       LET x == SerOutcome(regs[o.x], o.pb, o.pl, o.be, w) IN
       IF WroteOK(o, x) /\ o.out = w.bytes \o x.add /\ o.post = regs
       THEN Go(regs, [w EXCEPT !.bytes = o.out], r) ELSE Stop("serialization", x)
     ELSE IF o.op = "SerSlice" THEN
       LET x == SliceOutcome(regs[o.x], o.pb, o.pl, o.be, o.len) IN
       IF o.isnil /\ x.err # "fit" THEN IF o.panic THEN Go(regs, w, r) ELSE Stop("nil slice", "panic")
       ELSE IF ~o.panic /\ WroteOK(o, x) /\ o.out = x.add /\ o.rest /\ o.post = regs
       THEN Go(regs, w, r) ELSE Stop("serialization to a slice", x)
     ELSE IF o.op = "De" THEN
       LET xs == Outcomes(r, o) IN
       IF \E x \in xs : ReadOK(o, x) /\ o.pos = r.pos + x.n
       THEN Go(o.post, w, [r EXCEPT !.pos = o.pos]) ELSE Stop("deserialization", xs)
     ELSE Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
