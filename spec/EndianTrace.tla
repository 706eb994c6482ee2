----------------------------- MODULE EndianTrace -----------------------------
(* Recorded histories over a byte memory, two order objects, two bit headers and two restriction flags. *)
EXTENDS Endian, TraceBase
VARIABLES e, l, st, bad
vars == <<e, l, st, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE
        /\ st = [mem |-> Trace[e].mem, ord |-> <<FALSE, FALSE>>, hd |-> << <<0, 0>>, <<0, 0>> >>, flag |-> FALSE]
Go(t) == l' = l + 1 /\ st' = t /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, st>>
Check(ok, t, what) == IF ok THEN Go(t) ELSE Stop(what, t)
Fail(o, t, what) == Check(o.out = "panic", t, what)
Names(ord) == [i \in 1..2 |-> IF ord[i] THEN "BigEndian" ELSE "LittleEndian"]
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     CASE o.op = "UNEXPECTED_PANIC" -> Stop("panic", o.msg)
       [] o.op = "Order" ->
            LET t == IF Accepted(o.kind) THEN [st EXCEPT !.ord[o.z] = Order(o.kind)]
                     ELSE IF o.kind = "obj" THEN [st EXCEPT !.ord[o.z] = st.ord[o.x]] ELSE st
                good == Accepted(o.kind) \/ o.kind = "obj"
            IN Check(o.out = (IF good THEN "ok" ELSE "panic") /\ o.msb = t.ord /\ o.got = t.ord /\ o.str = Names(t.ord), t, "order object")
       [] o.op = "Put" ->
            IF o.avail < o.n THEN Check(o.out = "panic" /\ o.mem = st.mem, st, "writing to a short slice")
            ELSE LET t == [st EXCEPT !.mem = Put(st.mem, o.off, o.v, o.n, st.ord[o.x])] IN
                 Check(o.out = "ok" /\ o.mem = t.mem /\ o.kept, t, "bytes written")
       [] o.op = "Take" ->
            IF o.avail < o.n THEN Check(o.out = "panic" /\ o.mem = st.mem, st, "reading from a short slice")
            ELSE Check(o.out = "ok" /\ o.v = Take(st.mem, o.off, o.n, st.ord[o.x]) /\ o.mem = st.mem, st, "number read")
       [] o.op = "Header" ->
            LET src == IF o.how = "copy" THEN st.hd[o.x] ELSE <<o.bits, o.len>>
                t == IF HeaderOK(src[1], src[2]) THEN [st EXCEPT !.hd[o.z] = src] ELSE st
            IN Check(o.out = (IF HeaderOK(src[1], src[2]) THEN "ok" ELSE "panic") /\ o.post = t.hd /\ o.got = t.hd /\ o.valid, t, "bit header")
       [] o.op = "Restrict" ->
            \* only: an object which is restricted for good
            IF o.only THEN Check(o.out = (IF o.on THEN "ok" ELSE "panic") /\ o.got, st, "fixed restriction")
            ELSE Check(o.out = "ok" /\ o.got = o.on, [st EXCEPT !.flag = o.on], "restriction")
       [] o.op = "Trust" -> Check(o.got = o.on /\ o.t /\ ~o.u, st, "trust level")
       [] OTHER -> Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
