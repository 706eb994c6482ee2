-------------------------- MODULE FaultyBufferModel --------------------------
(* All short histories; generator of the replayed ones. *)
EXTENDS FaultyBuffer, TLC, Json
CONSTANTS Thr, Depth
VARIABLES s, thr, in, out, faults, hist
vars == <<s, thr, in, out, faults, hist>>
Bytes(k, n) == [i \in 1..n |-> k * 10 + i]
Init == s = Fresh /\ thr \in 0..Thr /\ in = <<>> /\ out = <<>> /\ faults = {} /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Next == /\ Len(hist) < Depth /\ UNCHANGED thr
        /\ \/ \E n \in 0..3 :
                LET r == Read(s, thr, n) IN
                  /\ s' = r.st
                  /\ out' = out \o r.data
                  /\ UNCHANGED in
                  /\ faults' = (IF r.err = "fault" THEN faults \cup {"r"} ELSE faults)
                  /\ Log([op |-> "Read", len |-> n, data |-> <<>>])
           \/ \E n \in 0..3 :
                LET d == Bytes(Len(hist), n)
                    r == Write(s, thr, d) IN
                  /\ s' = r.st
                  /\ in' = in \o SubSeq(d, 1, r.n)
                  /\ UNCHANGED out
                  /\ faults' = (IF r.err = "fault" THEN faults \cup {"w"} ELSE faults)
                  /\ Log([op |-> "Write", len |-> n, data |-> d])
           \/ s' = Reset(s) /\ in' = <<>> /\ out' = <<>> /\ faults' = {} /\ Log([op |-> "Reset", len |-> 0, data |-> <<>>])
           \/ \E n \in {0, 4} :
                LET d == Bytes(Len(hist), n) IN
                  s' = SetContent(d) /\ in' = d /\ out' = <<>> /\ faults' = {} /\ Log([op |-> "SetContent", len |-> n, data |-> d])
Spec == Init /\ [][Next]_vars
(* nothing is lost or duplicated; never more than thr bytes in one direction; a fault is permanent *)
Fifo == in = out \o s.buf
Bounded == Len(out) <= thr /\ s.wr <= thr
Permanent == ("r" \in faults => Read(s, thr, 1).err = "fault") /\ ("w" \in faults => Write(s, thr, <<1>>).err = "fault")
Exact == \A n \in 1..4 : LET r == Read(s, thr, n) IN (r.err = "nil" => r.n = Least(n, Len(s.buf))) /\ (r.err = "EOF" => s.buf = <<>>)
Emit == Len(hist) = Depth => PrintT("ZZGEN " \o ToJson([thr |-> thr, ops |-> hist]))
=============================================================================
