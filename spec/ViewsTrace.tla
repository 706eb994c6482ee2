----------------------------- MODULE ViewsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the real slice views must be behaviours of the     *)
(* view machine over the point machine.  Every event carries the raw        *)
(* coordinates of every cell, read through the owner's own pointers.        *)
(***************************************************************************)
EXTENDS Views, Curve, TraceBase

CONSTANTS Order, Lambda
VARIABLES e, l, st, prev, bad        \* prev: raw coordinates after the previous event
vars == <<e, l, st, prev, bad>>

Ty == Trace[e].types
Unset == Special("unset")
Init == /\ e \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE /\ prev = <<>>
        /\ st = [val |-> [i \in 1..Len(Trace[e].types) |-> Unset], slots |-> Trace[e].slots, views |-> <<>>]
Go(o, s) == l' = l + 1 /\ st' = s /\ prev' = o.raw /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, st, prev>>
Wrong(o, w) == { i \in 1..Len(w) : w[i] # Unset /\ (Len(o.raw) < i \/ ~Stands(Ty[i], o.raw[i], w[i])) }
(* the cells hold the values of s, and cells outside touched are bit for bit what they were *)
Check(o, s, touched, what) ==
  LET bads == Wrong(o, s.val)
      moved == { i \in 1..Len(prev) : i \notin touched /\ o.raw[i] # prev[i] } IN
  IF bads # {} THEN LET i == CHOOSE j \in bads : TRUE IN Stop(what, [cell |-> i, type |-> Ty[i], value |-> s.val[i], got |-> ValueOf(o.raw[i])])
  ELSE IF moved # {} THEN Stop("another cell changed", CHOOSE i \in moved : TRUE)
  ELSE Go(o, s)

(* the operation on cells a recorded operation through references is *)
OnCells(o) == [op |-> o.f, z |-> CellOf(st, o.z), x |-> CellOf(st, o.x), y |-> CellOf(st, o.y)]
OperandCells(c) == { Operands(c)[i] : i \in DOMAIN Operands(c) }
Cells(w) == { Entry(st, w, k) : k \in 0..(w.n - 1) }

(* a look at a view: its length, the cells behind its entries, by both getters, and the indices that must be refused *)
LookOK(o, w) ==
  /\ o.len = w.n
  /\ o.cells = Entries(st, w)
  /\ o.again = Entries(st, w)
  /\ o.typed = <<>> \/ o.typed = Entries(st, w)
  /\ o.refused = o.asked

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     CASE o.op = "UNEXPECTED_PANIC" -> Stop("panic", o.msg)
       [] o.op = "mk" ->
            IF ~CanHold(Ty[o.z], o.v) THEN Stop("harness: value not representable", o.v)
            ELSE Check(o, [st EXCEPT !.val[o.z] = o.v], {o.z}, "object made from a point")
       [] o.op = "View" ->
            LET w == IF o.z[1] = 0 THEN Whole(st, o.z[2]) ELSE Part(st.views[o.z[1]], o.x[1], o.x[2]) IN
            IF o.z[1] # 0 /\ ~PartOK(st.views[o.z[1]], o.x[1], o.x[2]) THEN Stop("harness: no such part", w)
            ELSE IF o.out # "ok" THEN Stop("making a view", w)
            ELSE Check(o, AddView(st, w), {}, "making a view changed a point")
       [] o.op = "Redirect" -> Check(o, Redirect(st, o.z[1], o.z[2], o.x[2]), {}, "value changed")
       [] o.op = "Look" ->
            LET w == st.views[o.z[1]] IN
            IF o.out # "ok" \/ ~LookOK(o, w) THEN Stop("entries of the view", [len |-> w.n, cells |-> Entries(st, w), refused |-> o.asked])
            ELSE Check(o, st, {}, "looking at a view changed a point")
       [] o.op = "Norm" ->
            LET w == st.views[o.z[1]]
                inf == { k \in 0..(w.n - 1) : IsInf(Read(st, <<o.z[1], k>>)) }
                nap == { k \in 0..(w.n - 1) : Read(st, <<o.z[1], k>>) = NaP } IN
            IF nap # {} THEN Stop("harness: NaP in a batch", <<>>)
            ELSE IF o.out # "ok" \/ Range(o.idx) # inf \/ Len(o.idx) # Cardinality(inf) THEN Stop("batch normalization", inf)
            ELSE IF \E k \in (0..(w.n - 1)) \ inf : o.raw[Entry(st, w, k)][IF o.f = "Y" THEN 2 ELSE 4] # One THEN Stop("not normalized", <<>>)
            ELSE Check(o, st, Cells(w), "batch normalization changed a value")
       [] o.op = "Do" ->
            IF \E r \in {o.z, o.x, o.y} : ~RefOK(st, r) THEN Stop("harness: no such reference", <<>>)
            ELSE LET c == OnCells(o) want == Outcomes(Ty, st.val, c) r == ResultOf(st.val, c) IN
            IF \E q \in OperandCells(c) : st.val[q] \in {Unset, NaP} THEN Stop("harness: operand", <<>>)
            ELSE IF o.out \notin want THEN Stop("outcome of the call", [want |-> want, value |-> r])
            ELSE IF o.out = "panic" THEN Check(o, [st EXCEPT !.val[c.z] = Unset], {c.z} \cup OperandCells(c), "refused call changed a point")
            ELSE IF ~CanHold(Ty[c.z], r) THEN Stop("result cannot be held by the type", r)
            ELSE Check(o, Write(st, o.z, r), {c.z} \cup OperandCells(c), "cells after the call")
       [] OTHER -> Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
