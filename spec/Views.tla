------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Slices of curve points as other parts of the library see them.  Memory   *)
(* consists of cells, each holding one point object.  An array is a         *)
(* sequence of slots, each naming a cell: the slots of an array of values   *)
(* are its own cells for ever, the slots of an array of pointers (or of     *)
(* interface values) can be redirected by the owner.  A view covers a       *)
(* contiguous range of the slots of an array; it holds no point itself.     *)
(*                                                                         *)
(* A state is [val, slots, views]: val[c] the value in cell c, slots[a] the *)
(* cells of array a, views[i] = [a, lo, n] the n slots of a from lo on.     *)
(* A reference <<i, k>> is entry k (counted from 0) of view i; <<0, c>> is   *)
(* cell c itself, as its owner holds it.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Whole(st, a) == [a |-> a, lo |-> 1, n |-> Len(st.slots[a])]
(* the part of a view from lo (counted from 0) with n entries *)
Part(w, lo, n) == [a |-> w.a, lo |-> w.lo + lo, n |-> n]
PartOK(w, lo, n) == lo >= 0 /\ n >= 0 /\ lo + n <= w.n
(* the entry k of a view: a cell; there is none outside 0..n-1, whatever the array holds beyond the view *)
EntryOK(w, k) == k >= 0 /\ k < w.n
Entry(st, w, k) == st.slots[w.a][w.lo + k]
Entries(st, w) == [k \in 1..w.n |-> Entry(st, w, k - 1)]

RefOK(st, r) == IF r[1] = 0 THEN r[2] \in DOMAIN st.val ELSE r[1] \in DOMAIN st.views /\ EntryOK(st.views[r[1]], r[2])
CellOf(st, r) == IF r[1] = 0 THEN r[2] ELSE Entry(st, st.views[r[1]], r[2])
Read(st, r) == st.val[CellOf(st, r)]
Write(st, r, x) == [st EXCEPT !.val[CellOf(st, r)] = x]
Redirect(st, a, s, c) == [st EXCEPT !.slots[a][s] = c]
AddView(st, w) == [st EXCEPT !.views = Append(@, w)]
=============================================================================
