--------------------------- MODULE ExponentModel ---------------------------
(* Small exhaustive instance: all operations, all alias patterns, all register contents. *)
EXTENDS Exponent, FiniteSets

CONSTANTS Regs, SmallMax              \* register names; bound for set operations
VARIABLES regs, last                  \* last: the operation just performed (hidden by the VIEW)

Values == { BInt(i) : i \in 0..(BToInt(Modulus) - 1) }
Ints == { BInt(i) : i \in -SmallMax..SmallMax }

Ops == [op : {"Add", "Sub", "Mul"}, z : Regs, x : Regs, y : Regs]
       \cup [op : {"Neg", "Mod", "Copy"}, z : Regs, x : Regs]
       \cup [op : {"Zero", "One"}, z : Regs]
       \cup [op : {"SetBig"}, z : Regs, v : Ints]

Init == regs \in [Regs -> Values] /\ last = [op |-> "init"]
Next == \E o \in Ops : regs' = After(regs, o) /\ last' = o
Spec == Init /\ [][Next]_<<regs, last>>
StateView == regs

Closed == TypeOK(regs)
(* ring laws, evaluated on every combination of register contents *)
Laws ==
  \A a, b \in Regs :
    LET va == regs[a]
        vb == regs[b]
        add(x, y) == BAddMod(x, y, Modulus)
        mul(x, y) == BMulMod(x, y, Modulus)
        neg(x) == BMod(BNeg(x), Modulus)
    IN /\ add(va, vb) = add(vb, va)
       /\ mul(va, vb) = mul(vb, va)
       /\ add(va, neg(va)) = Zero
       /\ BSubMod(va, vb, Modulus) = add(va, neg(vb))
       /\ mul(va, add(vb, One)) = add(mul(va, vb), va)
       /\ BLt(neg(va), Modulus)
(* the subgroup view is a ring homomorphism *)
Homomorphic ==
  \A a, b \in Regs :
    /\ Sub253(BAddMod(regs[a], regs[b], Modulus)) = BAddMod(Sub253(regs[a]), Sub253(regs[b]), Order)
    /\ Sub253(BMulMod(regs[a], regs[b], Modulus)) = BMulMod(Sub253(regs[a]), Sub253(regs[b]), Order)
ViewsAgree == \A r \in Regs : View(regs[r]).iszs <=> (regs[r] \in {Zero, Order})
FrameOK == [][ \A r \in Regs : (r # last'.z) => regs'[r] = regs[r] ]_<<regs, last>>
=============================================================================
