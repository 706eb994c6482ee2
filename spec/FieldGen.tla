------------------------------ MODULE FieldGen ------------------------------
(* Enumerates operation sequences (alias patterns) for replay on the code. *)
EXTENDS Field, Json
CONSTANTS NRegs, Depth
VARIABLE hist
Regs == 1..NRegs
Ops == [op : Binary, z : Regs, x : Regs, y : Regs] \cup [op : Unary \cup {"Sqrt"}, z : Regs, x : Regs] \cup [op : Frame, z : Regs]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("ZZGEN " \o ToJson(hist))
=============================================================================
