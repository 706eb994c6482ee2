------------------------------ MODULE ErrDataGen ------------------------------
(* Random histories of ErrDataModel (TLC -simulate), printed for replay on the code.  The kind of operation is drawn first. *)
EXTENDS ErrDataModel, Json
CONSTANT Depth
VARIABLES hist, done
Strip(o) == [o EXCEPT !.sv = IF o.how \in {"struct", "add_struct"} THEN LET ps == DOMAIN o.sv IN [i \in 1..Cardinality(ps) |-> o.sv[<<i>>]] ELSE <<>>]
Draw(i) == CASE i \in {1, 2} -> MapOps [] i = 3 -> AnyOps [] i = 4 -> StructOps [] i = 5 -> DelOps [] i = 6 -> AsOps [] OTHER -> Foreigns
GInit == Init /\ hist = <<>> /\ done = FALSE
GNext == IF Len(hist) = Depth THEN ~done /\ done' = TRUE /\ PrintT("ZZGEN " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
         ELSE /\ \E i \in {RandomElement(1..7)} :
                 \E o \in {RandomElement(Draw(i))} :
                 LET r == Apply(Pool, Zero, E, Shaped(o)) IN
                 /\ E' = IF r.out = "ok" THEN Append(E, r.e) ELSE E
                 /\ last' = [o |-> o, out |-> r.out]
                 /\ hist' = Append(hist, Strip(o))
              /\ UNCHANGED done
GSpec == GInit /\ [][GNext]_<<vars, hist, done>>
=============================================================================
