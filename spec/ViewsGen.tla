------------------------------ MODULE ViewsGen ------------------------------
(* Random histories of the view machine for replay: array 1 holds three values (cells 1..3), array 2 three pointers, cell 4 stands alone. *)
EXTENDS Views, TLC, Json
CONSTANT Depth
VARIABLES st, hist, done
vars == <<st, hist, done>>
R(S) == RandomElement(S)
Ref == IF R(1..4) = 1 \/ st.views = <<>> THEN <<0, R(1..4)>>
       ELSE LET i == R(DOMAIN st.views) w == st.views[i] IN IF w.n = 0 THEN <<0, R(1..4)>> ELSE <<i, R(0..(w.n - 1))>>
H(op, f, z, x, y) == [op |-> op, f |-> f, z |-> z, x |-> x, y |-> y]
Nil == <<0, 1>>
Draw(k) ==
  CASE k <= 2 -> LET a == R(1..2) IN H("View", "", <<0, a>>, <<0, 3>>, Nil)
    [] k <= 4 /\ st.views # <<>> ->
         LET i == R(DOMAIN st.views) w == st.views[i] lo == R(0..w.n) IN H("View", "", <<i, 0>>, <<lo, R(0..(w.n - lo))>>, Nil)
    [] k <= 6 -> H("Redirect", "", <<2, R(1..3)>>, <<0, R(1..4)>>, Nil)
    [] k <= 8 /\ st.views # <<>> -> H("Look", "", <<R(DOMAIN st.views), 0>>, Nil, Nil)
    [] k = 9 /\ st.views # <<>> -> H("Norm", R({"Z", "Y"}), <<R(DOMAIN st.views), 0>>, Nil, Nil)
    [] k = 10 -> H("mk", "", <<0, R(1..4)>>, Nil, Nil)
    [] OTHER -> H("Do", R({"SetFrom", "SetFrom", "Neg", "NegEq", "Double", "Add", "AddEq", "SetNeutral"}), Ref, Ref, Ref)
After(o) == CASE o.op = "View" -> IF o.z[1] = 0 THEN AddView(st, Whole(st, o.z[2])) ELSE AddView(st, Part(st.views[o.z[1]], o.x[1], o.x[2]))
              [] o.op = "Redirect" -> Redirect(st, 2, o.z[2], o.x[2])
              [] OTHER -> st
Init == st = [val |-> [c \in 1..4 |-> 0], slots |-> << <<1, 2, 3>>, <<1, 3, 4>> >>, views |-> <<>>] /\ hist = <<>> /\ done = FALSE
Next == IF Len(hist) >= Depth THEN ~done /\ done' = TRUE /\ PrintT("ZZGEN " \o ToJson(hist)) /\ UNCHANGED <<st, hist>>
        ELSE \E o \in {Draw(R(1..16))} : hist' = Append(hist, o) /\ st' = After(o) /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
