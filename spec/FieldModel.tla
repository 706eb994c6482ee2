----------------------------- MODULE FieldModel -----------------------------
(***************************************************************************)
(* Small exhaustive instance with non-unique representations: a register   *)
(* holds a representative in 0..Top-1 with P < Top; an operation may       *)
(* choose any representative of the exact result.  Checked: the residues   *)
(* step as in Field (refinement), observers are functions of the residue,  *)
(* field laws, and existence of roots exactly for squares.                 *)
(***************************************************************************)
EXTENDS Field

CONSTANTS Top, NRegs
VARIABLES rep, last
vars == <<rep, last>>
Regs == 1..NRegs
Abs(r) == [i \in DOMAIN r |-> Red(BInt(r[i]))]
Reps(v) == { k \in 0..(Top - 1) : Red(BInt(k)) = v }

Ops == [op : Binary, z : Regs, x : Regs, y : Regs]
       \cup [op : Unary, z : Regs, x : Regs]
       \cup [op : Frame \cup {"Zero", "One"}, z : Regs]
       \cup [op : {"MulC", "DivC", "AddC"}, z : Regs, x : Regs, v : {"-2", "0", P, "3"}]
       \cup [op : {"ProdSlice", "SumSlice"}, z : Regs, lo : {1, 2}, hi : {1, NRegs}]
       \cup {[op |-> "ProdSlice", z |-> 1, lo |-> 1, hi |-> 0]}

Init == rep \in [Regs -> 0..(Top - 1)] /\ last = [op |-> "init", z |-> 1]
Next == \E o \in Ops :
          /\ last' = o
          /\ IF Refused(Abs(rep), o) THEN \E k \in 0..(Top - 1) : rep' = [rep EXCEPT ![o.z] = k]
             ELSE \E k \in Reps(ResultOf(Abs(rep), o)) : rep' = [rep EXCEPT ![o.z] = k]
Spec == Init /\ [][Next]_vars
StateView == rep

Refines == [][ LET o == last' IN IF Refused(Abs(rep), o) THEN AfterRefused(Abs(rep), o, Abs(rep')) ELSE Abs(rep') = After(Abs(rep), o) ]_vars

Laws ==
  \A i, j \in Regs :
    LET a == Abs(rep)[i]
        b == Abs(rep)[j]
        mul(x, y) == BMulMod(x, y, P)
        add(x, y) == BAddMod(x, y, P)
    IN /\ InField(a)
       /\ (a # Zero => mul(a, Recip(a)) = One)
       /\ mul(a, add(b, One)) = add(mul(a, b), a)
       /\ Legendre(mul(a, b)) = Legendre(a) * Legendre(b)
       /\ Sign(Red(BNeg(a))) = -Sign(a)
       /\ (\E c \in 0..(Top - 1) : BMulMod(BInt(c), BInt(c), P) = a) <=> Legendre(a) # -1
       /\ LET r == BatchInv(<<a, b, a>>, [lo |-> 1, hi |-> 2]) IN
            IF r.err THEN r.post = <<a, b, a>> /\ r.zeros # <<>>
            ELSE mul(r.post[1], a) = One /\ mul(r.post[2], b) = One /\ r.post[3] = a
       /\ BatchInvSkip(<<a, b>>, [lo |-> 1, hi |-> 2]).post[1] = (IF a = Zero THEN Zero ELSE Recip(a))
(* a result never depends on which representative an operand had: same residues, same observers *)
Observers == \A i, j \in Regs : (rep[i] - rep[j]) % BToInt(P) = 0 <=> View(Abs(rep)[i]) = View(Abs(rep)[j])
=============================================================================
