------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The field element machine: a bank of registers (a sequence) holding     *)
(* residues modulo P.  The implementation has several internal             *)
(* representations per residue; the specification knows only residues, so  *)
(* nothing observable may depend on the representation.                    *)
(* An operation names a receiver z and operands x, y (register numbers,    *)
(* possibly equal), and possibly an integer v.                             *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC, SequencesExt

CONSTANT P                                  \* an odd prime

Zero == "0"
One == "1"
Red(v) == BMod(v, P)
Half == BDiv(BSub(P, One), "2")

InField(v) == BLe(Zero, v) /\ BLt(v, P)

Recip(a) == BInvMod(a, P)
Product(vals) == FoldLeft(LAMBDA a, b : BMulMod(a, b, P), One, vals)
Sum(vals) == FoldLeft(LAMBDA a, b : BAddMod(a, b, P), Zero, vals)

(* ---- single operations *)
Binary == {"Add", "Sub", "Mul", "Div"}
Unary == {"Square", "Double", "Five", "Neg", "Inv", "Copy"}
Const == {"AddC", "SubC", "MulC", "DivC"}     \* second operand is a machine integer v
Setters == {"Set", "Zero", "One"}
Frame == {"Norm", "Rerand"}                    \* may change the representation only

Refused(regs, o) ==
  \/ o.op = "Inv" /\ regs[o.x] = Zero
  \/ o.op = "Div" /\ regs[o.y] = Zero
  \/ o.op = "DivC" /\ Red(o.v) = Zero

ResultOf(regs, o) ==
  CASE o.op = "Add"    -> BAddMod(regs[o.x], regs[o.y], P)
    [] o.op = "Sub"    -> BSubMod(regs[o.x], regs[o.y], P)
    [] o.op = "Mul"    -> BMulMod(regs[o.x], regs[o.y], P)
    [] o.op = "Div"    -> BMulMod(regs[o.x], Recip(regs[o.y]), P)
    [] o.op = "Square" -> BMulMod(regs[o.x], regs[o.x], P)
    [] o.op = "Double" -> BAddMod(regs[o.x], regs[o.x], P)
    [] o.op = "Five"   -> BMulMod(regs[o.x], "5", P)
    [] o.op = "Neg"    -> Red(BNeg(regs[o.x]))
    [] o.op = "Inv"    -> Recip(regs[o.x])
    [] o.op = "Copy"   -> regs[o.x]
    [] o.op = "AddC"   -> Red(BAdd(regs[o.x], o.v))
    [] o.op = "SubC"   -> Red(BSub(regs[o.x], o.v))
    [] o.op = "MulC"   -> Red(BMul(regs[o.x], o.v))
    [] o.op = "DivC"   -> BMulMod(regs[o.x], Recip(Red(o.v)), P)
    [] o.op = "Exp"    -> BPowMod(regs[o.x], o.v, P)
    [] o.op = "Set"    -> Red(o.v)
    [] o.op = "Zero"   -> Zero
    [] o.op = "One"    -> One
    [] o.op \in Frame  -> regs[o.z]
    [] o.op = "ProdSlice" -> Product(SubSeq(regs, o.lo, o.hi))
    [] o.op = "SumSlice"  -> Sum(SubSeq(regs, o.lo, o.hi))
    [] o.op = "ProdMany"  -> Product([i \in 1..Len(o.args) |-> regs[o.args[i]]])
    [] o.op = "SumMany"   -> Sum([i \in 1..Len(o.args) |-> regs[o.args[i]]])

After(regs, o) == [regs EXCEPT ![o.z] = ResultOf(regs, o)]

(* a refused operation leaves everything but the receiver alone *)
AfterRefused(regs, o, post) ==
  Len(post) = Len(regs) /\ \A i \in DOMAIN regs : i # o.z => post[i] = regs[i]

(* ---- square roots and quadratic character *)
Legendre(v) == IF v = Zero THEN 0 ELSE IF BPowMod(v, Half, P) = One THEN 1 ELSE -1

RootAllowed(regs, o, post) ==
  LET x == regs[o.x] IN
  /\ Len(post) = Len(regs)
  /\ \A i \in DOMAIN regs : i # o.z => post[i] = regs[i]
  /\ o.ok = (Legendre(x) # -1)
  /\ IF o.ok THEN InField(post[o.z]) /\ BMulMod(post[o.z], post[o.z], P) = x ELSE post[o.z] = regs[o.z]

(* ---- simultaneous inversion of a list of registers *)
ListOf(o) == IF "args" \in DOMAIN o THEN o.args ELSE [i \in 1..(o.hi - o.lo + 1) |-> o.lo + i - 1]
ZeroPos(regs, ls) == SelectSeq([i \in 1..Len(ls) |-> i - 1], LAMBDA i : regs[ls[i + 1]] = Zero)

InvertAll(regs, ls, skip) ==
  [i \in DOMAIN regs |-> IF (\E j \in DOMAIN ls : ls[j] = i) /\ regs[i] # Zero THEN Recip(regs[i]) ELSE regs[i]]

BatchInv(regs, o) ==         \* [post, err, zeros]
  LET ls == ListOf(o)
      zs == ZeroPos(regs, ls)
  IN IF zs # <<>> THEN [post |-> regs, err |-> TRUE, zeros |-> zs]
     ELSE [post |-> InvertAll(regs, ls, FALSE), err |-> FALSE, zeros |-> <<>>]

BatchInvSkip(regs, o) ==
  LET ls == ListOf(o) IN [post |-> InvertAll(regs, ls, TRUE), err |-> FALSE, zeros |-> ZeroPos(regs, ls)]

(* ---- observers *)
Sign(v) == IF v = Zero THEN 0 ELSE IF BLe(v, Half) THEN 1 ELSE -1
Two63 == BShl(One, 63)
Two64 == BShl(One, 64)

AsU64(v) == IF BLt(v, Two64) THEN v ELSE "error"
AsI64(v) == IF BLt(v, Two63) THEN v
            ELSE IF BLe(BSub(P, v), Two63) THEN BSub(v, P) ELSE "error"

View(v) == [big  |-> v,
            u256 |-> v,
            dec  |-> BDec(v),
            hex  |-> v,
            sign |-> Sign(v),
            jac  |-> Legendre(v),
            isz  |-> v = Zero,
            is1  |-> v = One,
            u64  |-> AsU64(v),
            i64  |-> AsI64(v)]

Compare(a, b) == [eq    |-> a = b,
                  eq2   |-> a = b,
                  eq256 |-> a = b,
                  abs   |-> a = b \/ a = Red(BNeg(b)),
                  exact |-> a = b]
=============================================================================
