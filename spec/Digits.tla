------------------------------- MODULE Digits -------------------------------
(* Signed-digit recoding: a transition system that consumes an integer from the low end. *)
EXTENDS BigNat, TLC

Odd(c) == BMod(c, "2") = "1"

RECURSIVE Total(_)
Total(ds) == IF ds = <<>> THEN "0"
             ELSE BAdd(BShl(ds[1].c, ds[1].pos), Total(Tail(ds)))

ValidDigits(ds, w) ==
  /\ \A i \in DOMAIN ds : Odd(ds[i].c) /\ BLt(BAbs(ds[i].c), BShl("1", w)) /\ ds[i].pos >= 0
  /\ \A i \in 1..(Len(ds) - 1) : ds[i].pos + w <= ds[i+1].pos

Recodes(ds, x, w) == ValidDigits(ds, w) /\ Total(ds) = x
=============================================================================
