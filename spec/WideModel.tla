----------------------------- MODULE WideModel -----------------------------
(***************************************************************************)
(* Small exhaustive instance of the range contracts.  P and R are in the   *)
(* same proportion as the real ones (2P < R < 3P).  Each contract is       *)
(* realised by the textbook lazy reduction; checked: for all admissible    *)
(* operands the realisation stays inside the promised range and is         *)
(* congruent, and chains of c-range operations never leave the c range.    *)
(***************************************************************************)
EXTENDS Wide
VARIABLES x, y
vars == <<x, y>>

Top == BToInt(R) - 1
N == BToInt(P)
TopC == Top + 1 - N                       \* c range: 0..TopC-1
InI(r, v) == In(r, BInt(v))

(* lazy realisations on integers *)
AddC(a, b) == LET s == a + b IN IF s >= TopC THEN (IF s >= 2 * N /\ s - N >= TopC THEN s - 2 * N ELSE s - N) ELSE s
SubC(a, b) == IF a >= b THEN a - b ELSE IF a - b + N >= 0 THEN a - b + N ELSE a - b + 2 * N
RedCA(a) == IF a >= TopC THEN a - N ELSE a
RedFB(a) == IF a >= N THEN a - N ELSE a
(* Montgomery multiplication: add the multiple of N that makes the sum divisible by R *)
Mont(a, b) == LET t == a * b
                  k == CHOOSE k \in 0..Top : (t + k * N) % (Top + 1) = 0
                  q == (t + k * N) \div (Top + 1)
              IN IF q >= TopC THEN q - N ELSE q

Init == x \in 0..Top /\ y \in 0..Top
Next == /\ x < TopC /\ y < TopC
        /\ x' \in {AddC(x, y), SubC(x, y), Mont(x, y)}
        /\ y' = y
Spec == Init /\ [][Next]_vars

OK(op, val) == LET o == [op |-> op, x |-> 1, y |-> 2, z |-> 1] IN
               Admissible(<<BInt(x), BInt(y)>>, o) => ModAllowed(<<BInt(x), BInt(y)>>, o, BInt(val))
Contracts == /\ OK("AddCc", AddC(x, y))
             /\ OK("SubCc", SubC(x, y))
             /\ OK("RedCA", RedCA(x))
             /\ OK("RedFB", RedFB(x))
             /\ OK("RedA", x % N)
             /\ OK("MulM", Mont(x, y))
             /\ OK("FromM", RedFB(Mont(x, 1)))
             /\ OK("ToM", Mont(x, ((Top + 1) * (Top + 1)) % N))
Chains == [][x' < TopC]_vars
(* every residue has one or two representatives in the c range, exactly two in the b range *)
Reps == /\ Cardinality({ k \in 0..(TopC - 1) : k % N = x % N }) \in {1, 2}
        /\ Cardinality({ k \in 0..(2 * N - 1) : k % N = x % N }) = 2
(* the sliding window criterion determines the value: greedy recoding satisfies it *)
RECURSIVE Slide(_, _, _)
Slide(v, pos, win) ==          \* most significant digit first
  IF v = 0 THEN <<>>
  ELSE IF v % 2 = 0 THEN Slide(v \div 2, pos + 1, win)
  ELSE Append(Slide(v \div 2^win, pos + win, win), [e |-> BInt(v % 2^win), p |-> pos])
Sliding == \A win \in 1..3 : SlidingOK(Slide(x, 0, win), BInt(x), win)
=============================================================================
