-------------------------------- MODULE Glv --------------------------------
(* Decomposition of exponents with respect to an endomorphism of eigenvalue Lambda. *)
EXTENDS BigNat, TLC, FiniteSets

CONSTANTS Order, Lambda, B11, B12, B21, B22, Bound

Represents(u, v, t) == BMod(BAdd(u, BMul(v, Lambda)), Order) = BMod(t, Order)
InLattice(u, v) == Represents(u, v, "0")
Norm(u, v) == IF BLt(BAbs(u), BAbs(v)) THEN BAbs(v) ELSE BAbs(u)

(* (B11,B12), (B21,B22) generate the lattice *)
BasisOK == /\ InLattice(B11, B12) /\ InLattice(B21, B22)
           /\ BSub(BMul(B11, B22), BMul(B12, B21)) = Order

Shift(u, v, i, j) == << BAdd(u, BAdd(BMul(BInt(i), B11), BMul(BInt(j), B21))),
                        BAdd(v, BAdd(BMul(BInt(i), B12), BMul(BInt(j), B22))) >>
(* no neighbour in the lattice coset is shorter; that neighbours up to distance 1 suffice is checked in GlvModel *)
Shortest(u, v) == \A i \in -1..1, j \in -1..1 :
                     LET w == Shift(u, v, i, j) IN BLe(Norm(u, v), Norm(w[1], w[2]))
Bounded(u, v) == BLe(Norm(u, v), Bound)

ValidDecomposition(u, v, t) == Represents(u, v, t) /\ Bounded(u, v) /\ Shortest(u, v)
=============================================================================
