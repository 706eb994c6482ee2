----------------------------- MODULE CurveModel -----------------------------
(***************************************************************************)
(* The point machine on a small curve: every reachable combination of       *)
(* values, with the group axioms, the subgroup criterion, the endomorphism  *)
(* and reconstruction from coordinates checked for all points.              *)
(***************************************************************************)
EXTENDS Curve, Sequences

CONSTANTS Q,           \* P as an integer
          RegTypes,    \* types of the registers
          Sub,         \* order of the subgroup
          WithOps,     \* whether operations are explored (otherwise only the laws)
          Crit         \* whether the characters of a, d, R are as on the real curve (subgroup criterion usable)

Coords == { BInt(i) : i \in 0..(Q - 1) }
Points == { Aff(x, y) : x \in Coords, y \in Coords } 
AffPts == { p \in Points : OnCurveXY(p.x, p.y) }
AllPts == AffPts \cup {E1, E2}
Doubles == { PDouble(p) : p \in AllPts }
Subgroup == { p \in Doubles : Times(BInt(Sub), p) = N }
RECURSIVE SpanFrom(_, _)
SpanFrom(S, G) == LET T == S \cup { PAdd(s, g) : s \in S, g \in G } IN IF T = S THEN S ELSE SpanFrom(T, G)
GenPts == { CHOOSE p \in AffPts : 2 * Cardinality(SpanFrom({N}, {p})) = Cardinality(AllPts), A2, E1 }
T2 == <<"ef", "xf">>
T3 == <<"xs", "af", "ef">>
T3b == <<"ef", "xf", "as">>

VARIABLES regs, loaded
vars == <<regs, loaded>>
Regs == DOMAIN RegTypes
Start(t) == IF IsSub(t) THEN Subgroup \cup {NaP} ELSE IF CanInf(t) THEN AllPts \cup {NaP} ELSE AffPts \cup {NaP}
Init == regs = [i \in Regs |-> N] /\ loaded = 0
Load == /\ loaded < Len(RegTypes)
        /\ \E v \in Start(RegTypes[loaded + 1]) : regs' = [regs EXCEPT ![loaded + 1] = v]
        /\ loaded' = loaded + 1
Ops == [op : Binary, z : Regs, x : Regs, y : Regs] \cup [op : BinaryEq \cup Unary, z : Regs, x : Regs] \cup [op : UnaryEq \cup Const, z : Regs]
Operate == /\ WithOps /\ loaded = Len(RegTypes)
           /\ \E o \in Ops : /\ HasOp(RegTypes[o.z], o.op)
                             /\ "ok" \in Outcomes(RegTypes, regs, o)
                             /\ regs' = [regs EXCEPT ![o.z] = ResultOf(regs, o)]
           /\ UNCHANGED loaded
Next == Load \/ Operate
Spec == Init /\ [][Next]_vars

Holds == \A i \in Regs : regs[i] \in Start(RegTypes[i])

U == regs[1]
V == IF Len(RegTypes) > 1 THEN regs[2] ELSE regs[1]
Real == U # NaP /\ V # NaP
GroupLaws == Real =>
  /\ PAdd(U, V) \in AllPts
  /\ PAdd(U, V) = PAdd(V, U)
  /\ PAdd(U, N) = U /\ PAdd(U, PNeg(U)) = N
  /\ (PAdd(U, V) = U) = (V = N)
  /\ PAdd(U, A2) = PlusA(U)
  /\ \A g \in GenPts \cup {E2} : PAdd(PAdd(U, g), V) = PAdd(U, PAdd(g, V))       \* Light's test: associativity
  /\ (U = N /\ V = N => Cardinality(SpanFrom({N}, GenPts)) = Cardinality(AllPts))
Absorbing == WithOps => \A o \in Ops : (\E i \in DOMAIN Operands(o) : regs[Operands(o)[i]] = NaP) => ResultOf(regs, o) = NaP
Coordinates == Real =>
  /\ ValueOf(Proj(U)) = U
  /\ \A s \in Coords \ {Zero} : LET c == Proj(U) IN ValueOf([i \in 1..4 |-> Mul2(s, c[i])]) = U
  /\ ValueOf(Proj(PlusA(U))) = PlusA(U)
Criterion == Crit => \A p \in {U} \ {NaP} : InSub(p) = (p \in Subgroup)
SubgroupClosed == (U \in Subgroup /\ V \in Subgroup) => PAdd(U, V) \in Subgroup /\ PNeg(U) \in Subgroup /\ PEndo(U) \in Subgroup
DoubleInSub == U # NaP => PDouble(U) \in Subgroup
CosetByA == (U \in Subgroup) => PlusA(U) \notin Subgroup
Endomorphism == Real =>
  /\ PEndo(U) \in AllPts
  /\ PEndo(PAdd(U, V)) = PAdd(PEndo(U), PEndo(V))
  /\ PAdd(PEndo(PEndo(U)), PDouble(U)) = N
  /\ (PEndo(U) = N) = (U \in {N, A2})
Reconstruct ==        \* what single coordinates determine
  (Real /\ IsAff(U) /\ IsAff(V)) =>
  /\ (U.x = V.x => V \in {U, Aff(U.x, Neg1(U.y))})
  /\ (U.y = V.y => V \in {U, PNeg(U)})
  /\ U.y # Zero
  /\ ((MapToField(U) = MapToField(V)) = (V \in {U, PlusA(U)}))
  /\ ((U \in Subgroup /\ V \in Subgroup /\ MapToField(U) = MapToField(V)) => U = V)
  /\ ((U \in Subgroup /\ V \in Subgroup /\ Mul2(U.x, BMod(BInt(Sign(U.y)), P)) = Mul2(V.x, BMod(BInt(Sign(V.y)), P))) => U = V)
  /\ (Chi(Sub2(One, Mul2(A, Sq(U.x)))) = 1 <=> (U \in Subgroup \/ PlusA(U) \in Subgroup)) \/ ~Crit
Single == V = N => Coordinates /\ Criterion /\ DoubleInSub /\ CosetByA
Laws == loaded = Len(RegTypes) => GroupLaws /\ Absorbing /\ Single /\ SubgroupClosed /\ Endomorphism /\ Reconstruct
=============================================================================
