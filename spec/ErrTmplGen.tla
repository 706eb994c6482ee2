------------------------------ MODULE ErrTmplGen ------------------------------
(* Templates as sequences of blocks: all of them up to MaxLen (exhaustive) or random longer ones (-simulate). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Blocks
VARIABLE hist
Init == hist = <<>>
Next == \E b \in Blocks : Len(hist) < MaxLen /\ hist' = Append(hist, b)
Spec == Init /\ [][Next]_hist
Emit == hist # <<>> => PrintT("ZZGEN " \o ToJson(hist))
EmitLong == Len(hist) = MaxLen => PrintT("ZZGEN " \o ToJson(hist))
=============================================================================
