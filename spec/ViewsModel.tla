----------------------------- MODULE ViewsModel -----------------------------
(* All histories over an array of three values, an array of three pointers and up to NViews views, two abstract values.
   A second description of the same state (what every reference reads) is kept and compared. *)
EXTENDS Views, FiniteSets, TLC
CONSTANTS NViews, Depth
VARIABLES st, shadow, last
vars == <<st, shadow, last>>
Cells == 1..4
Vals == {0, 1}
Refs(s) == { r \in ({0} \X Cells) \cup ((1..NViews) \X (0..2)) : RefOK(s, r) }
ReadAll(s) == [r \in Refs(s) |-> Read(s, r)]
Start == [val |-> [c \in Cells |-> 0], slots |-> << <<1, 2, 3>>, <<1, 3, 4>> >>, views |-> <<>>]
Init == st = Start /\ shadow = ReadAll(Start) /\ last = 0
(* what a write through r does to every other reference: those of the same cell see it, no other one does *)
DoWrite(r, x) == /\ st' = Write(st, r, x)
                 /\ shadow' = [q \in DOMAIN shadow |-> IF CellOf(st, q) = CellOf(st, r) THEN x ELSE shadow[q]]
DoView(w) == /\ Len(st.views) < NViews /\ st' = AddView(st, w)
             /\ LET i == Len(st.views) + 1 IN
                shadow' = [q \in DOMAIN shadow \cup { <<i, k>> : k \in 0..(w.n - 1) } |->
                             IF q \in DOMAIN shadow THEN shadow[q] ELSE st.val[st.slots[w.a][w.lo + q[2]]]]
(* redirecting a slot changes what the views that cover it read, and no value *)
DoRedirect(s, c) == /\ st' = Redirect(st, 2, s, c)
                    /\ shadow' = [q \in DOMAIN shadow |->
                         IF q[1] # 0 /\ st.views[q[1]].a = 2 /\ st.views[q[1]].lo + q[2] = s THEN st.val[c] ELSE shadow[q]]
Next == /\ last < Depth /\ last' = last + 1
        /\ \/ \E r \in Refs(st), x \in Vals : DoWrite(r, x)
           \/ \E a \in 1..2 : DoView(Whole(st, a))
           \/ \E i \in DOMAIN st.views : \E lo, n \in 0..3 : PartOK(st.views[i], lo, n) /\ DoView(Part(st.views[i], lo, n))
           \/ \E s \in 1..3, c \in Cells : DoRedirect(s, c)
Spec == Init /\ [][Next]_vars
Agree == shadow = ReadAll(st)
InRange == \A i \in DOMAIN st.views : LET w == st.views[i] IN w.n >= 0 /\ w.lo >= 1 /\ w.lo + w.n - 1 <= 3
ValuesFixed == st.slots[1] = <<1, 2, 3>>
PartOfPart == \A i \in DOMAIN st.views : LET w == st.views[i] IN
  \A lo, n, lo2, n2 \in 0..3 : PartOK(w, lo, n) /\ PartOK(Part(w, lo, n), lo2, n2) =>
     PartOK(w, lo + lo2, n2) /\ Part(Part(w, lo, n), lo2, n2) = Part(w, lo + lo2, n2)
=============================================================================
