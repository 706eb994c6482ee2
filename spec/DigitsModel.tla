----------------------------- MODULE DigitsModel -----------------------------
(* The abstract recoder: at an odd remainder choose an odd digit d with |d| < 2^w such that the
   remainder becomes divisible by 2^(w+1).  Checked: it always ends, and what it emits is valid. *)
EXTENDS Digits
CONSTANTS Max, W
VARIABLES x, rest, pos, ds
vars == <<x, rest, pos, ds>>
Init == x \in -Max..Max /\ rest = x /\ pos = 0 /\ ds = <<>>
Skip == rest # 0 /\ rest % 2 = 0 /\ rest' = rest \div 2 /\ pos' = pos + 1 /\ UNCHANGED <<x, ds>>
Emit == /\ rest % 2 = 1
        /\ \E d \in -(2^W - 1)..(2^W - 1) :
             /\ d % 2 = 1 /\ (rest - d) % 2^(W + 1) = 0
             /\ rest' = (rest - d) \div 2^W /\ pos' = pos + W
             /\ ds' = Append(ds, [pos |-> pos, c |-> BInt(d)])
        /\ UNCHANGED x
Next == Skip \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Partial == BAdd(Total(ds), BShl(BInt(rest), pos)) = BInt(x)
Done == rest = 0 => Recodes(ds, BInt(x), W)
Ends == <>(rest = 0)
=============================================================================
