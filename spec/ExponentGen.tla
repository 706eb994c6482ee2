---------------------------- MODULE ExponentGen ----------------------------
(* Enumerates all operation sequences of length Depth over the registers; printed for replay on the code. *)
EXTENDS Exponent, Sequences, Json
CONSTANTS Regs, Depth
VARIABLE hist
Ops == [op : {"Add", "Sub", "Mul"}, z : Regs, x : Regs, y : Regs] \cup [op : {"Neg", "Mod"}, z : Regs, x : Regs]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("ZZGEN " \o ToJson(hist))
=============================================================================
