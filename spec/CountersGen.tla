----------------------------- MODULE CountersGen -----------------------------
(* Random behaviours of CountersModel (TLC -simulate), printed for replay on the code. *)
EXTENDS CountersModel, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, last')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == n = Depth => PrintT("ZZGEN " \o ToJson(hist))
=============================================================================
