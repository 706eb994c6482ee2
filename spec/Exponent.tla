------------------------------ MODULE Exponent ------------------------------
(***************************************************************************)
(* The exponent machine: a bank of registers holding residues modulo       *)
(* 2*Order.  An operation names a receiver z and operands x, y, which may   *)
(* all be the same register.  `After' is the transition function.           *)
(***************************************************************************)
EXTENDS BigNat, TLC

CONSTANT Order                       \* p253 for the real system, a small odd prime in models

Zero == "0"
One == "1"
Modulus == BMul("2", Order)

TypeOK(regs) == \A r \in DOMAIN regs : BLe(Zero, regs[r]) /\ BLt(regs[r], Modulus)

(* an exponent seen as an element of the prime order subgroup's exponent field *)
Sub253(v) == BMod(v, Order)

ResultOf(regs, o) ==
  CASE o.op = "Add"    -> BAddMod(regs[o.x], regs[o.y], Modulus)
    [] o.op = "Sub"    -> BSubMod(regs[o.x], regs[o.y], Modulus)
    [] o.op = "Mul"    -> BMulMod(regs[o.x], regs[o.y], Modulus)
    [] o.op = "Neg"    -> BMod(BNeg(regs[o.x]), Modulus)
    [] o.op = "Mod"    -> Sub253(regs[o.x])
    [] o.op = "Copy"   -> regs[o.x]
    [] o.op = "Zero"   -> Zero
    [] o.op = "One"    -> One
    [] o.op = "SetBig" -> BMod(o.v, Modulus)
    [] o.op = "SetU"   -> BMod(o.v, Modulus)
    [] o.op = "SetI"   -> BMod(o.v, Modulus)

After(regs, o) == [regs EXCEPT ![o.z] = ResultOf(regs, o)]

(* what the read accessors must show for a value *)
View(v) == [full  |-> v,
            sub   |-> Sub253(v),
            dec   |-> BDec(v),
            isz   |-> v = Zero,
            iszs  |-> Sub253(v) = Zero,
            is1   |-> v = One,
            is1s  |-> Sub253(v) = One]
=============================================================================
