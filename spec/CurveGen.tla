------------------------------ MODULE CurveGen ------------------------------
(***************************************************************************)
(* Random histories of the point machine, drawn with TLC -simulate and      *)
(* printed for replay on the real types.  Registers get random types; the   *)
(* points are drawn from the neighbourhood of one subgroup point (its       *)
(* multiples shifted by the points of order two), so that equal, opposite   *)
(* and exceptional operands are frequent.  Assignments refused because of   *)
(* the types are drawn rarely.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NRegs, Depth, NaPs, Mostly      \* Mostly: preferred operations
VARIABLES types, hist, done
vars == <<types, hist, done>>

Types == {"xf", "xs", "af", "as", "ef", "es"}
IsSub(t) == t \in {"xs", "as", "es"}
Regs == 1..NRegs
Moves2 == {"Add", "Sub"}
Moves1 == {"AddEq", "SubEq", "Neg", "Double", "Endo", "SetFrom", "SetFromSubgroupPoint"}
Moves0 == {"NegEq", "DoubleEq", "EndoEq"}
Looks == {"IsEqual", "Is", "Coo", "Norm"}
All == Moves2 \cup Moves1 \cup Moves0 \cup Looks \cup {"mk", "Clone", "SetNeutral"} \cup (IF NaPs THEN {"Handler"} ELSE {})

Op(op, z, x, y, k, s, m) == [op |-> op, z |-> z, x |-> x, y |-> y, k |-> k, s |-> s, m |-> m]
R(S) == RandomElement(S)
Kind == IF NaPs /\ R(1..4) = 1 THEN -1 ELSE R(0..15)

(* does the drawn operation respect the types? *)
Fits(o) ==
  LET ok(i) == ~IsSub(types[o.z]) \/ IsSub(types[i]) IN
  CASE o.op \in Moves2 -> ok(o.x) /\ ok(o.y)
    [] o.op \in {"AddEq", "SubEq", "Neg", "Endo", "SetFrom"} -> ok(o.x)
    [] o.op = "Clone" -> types[o.z] = types[o.x]
    [] OTHER -> TRUE
Draw == LET op == IF R(1..2) = 1 THEN R(Mostly) ELSE R(All) IN Op(op, R(Regs), R(Regs), R(Regs), Kind, R(0..5), R({"false", "true", "false", "default"}))
RECURSIVE Good(_)
Good(n) == LET o == Draw IN IF Fits(o) THEN o ELSE IF n > 0 THEN Good(n - 1) ELSE IF o.op = "Clone" THEN [o EXCEPT !.op = "SetNeutral"] ELSE o

Init == /\ types \in {[i \in Regs |-> "xf"]} /\ hist = <<>> /\ done = FALSE
Next ==
  IF hist = <<>>
  THEN \E t \in {[i \in Regs |-> R(Types)]} :
       /\ types' = t
       /\ hist' = [i \in Regs |-> Op("mk", i, 1, 1, Kind, R(0..5), "false")]
       /\ UNCHANGED done
  ELSE IF Len(hist) >= Depth
  THEN ~done /\ done' = TRUE /\ PrintT("ZZGEN " \o ToJson([types |-> types, ops |-> hist])) /\ UNCHANGED <<types, hist>>
  ELSE \E o \in {Good(6)} : hist' = Append(hist, o) /\ UNCHANGED <<types, done>>
Spec == Init /\ [][Next]_vars
=============================================================================
