------------------------------ MODULE GlvModel ------------------------------
(* For small lattices: the local criterion of Glv is the same as being globally shortest, *)
(* every exponent has a decomposition, and the bound is attained and never exceeded.       *)
EXTENDS Glv
CONSTANT Box
VARIABLES t, u, v
Ints == -Box..Box
Coset(tt) == { w \in { <<BInt(i), BInt(j)>> : i \in Ints, j \in Ints } : Represents(w[1], w[2], tt) }
Init == /\ t \in { BInt(i) : i \in 0..(BToInt(Order) - 1) }
        /\ \E w \in Coset(t) : u = w[1] /\ v = w[2]
Next == UNCHANGED <<t, u, v>>
Spec == Init /\ [][Next]_<<t, u, v>>
GloballyShortest == \A w \in Coset(t) : BLe(Norm(u, v), Norm(w[1], w[2]))
CriterionExact == (Bounded(u, v) /\ Shortest(u, v)) <=> GloballyShortest
Exists == \E w \in Coset(t) : ValidDecomposition(w[1], w[2], t)
ASSUME BasisOK
=============================================================================
