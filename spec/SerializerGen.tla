---------------------------- MODULE SerializerGen ----------------------------
(***************************************************************************)
(* Random histories of a family of serializers derived from each other,     *)
(* drawn with TLC -simulate and printed for replay on the real types.       *)
(* Ancestors are addressed by a number that is reduced modulo the size of   *)
(* the family, so that refused derivations do not matter.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth
VARIABLES fs, hist, done
vars == <<fs, hist, done>>

R(S) == RandomElement(S)
Formats == {"short", "long", "xy", "xs", "ys"}
Headers == {"gh", "gf", "ph", "pf", "sh", "sf"}
Keys == Headers \cup {"endian", "h1", "h2", "sub"}
(* 0 byte order, 1 truth value, 2 bit header, 3 bytes, 4 anything else *)
Fitting(k) == CASE k = "endian" -> 0 [] k = "sub" -> 1 [] k \in {"h1", "h2"} -> 2 [] OTHER -> 3
Str(n) == [i \in 1..n |-> R(0..255)]
Op(op, key, kind) ==
  [op |-> op, key |-> key, how |-> R({"method", "free"}), i |-> R(1..60), kind |-> kind, bytes |-> Str(R(0..4)), be |-> R(BOOLEAN), l |-> R({0, 1, 1, 2, 3, 7, 8})]
Draw ==
  LET d == R(1..12) k == R(Keys) IN
  IF d <= 6 THEN Op("with", k, Fitting(k))
  ELSE IF d = 7 THEN Op("with", k, R(0..4))
  ELSE IF d = 8 THEN Op("with", "junk", R(0..4))
  ELSE IF d = 9 THEN Op("copy", "", 0)
  ELSE IF d = 10 THEN Op("show", "", 0)
  ELSE Op("trip", "", 0)
Init == fs = <<>> /\ hist = <<>> /\ done = FALSE
Next ==
  IF fs = <<>> THEN fs' = [i \in 1..R(1..3) |-> R(Formats)] /\ UNCHANGED <<hist, done>>
  ELSE IF Len(hist) >= Depth
  THEN ~done /\ done' = TRUE /\ PrintT("ZZGEN " \o ToJson([fs |-> fs, ops |-> hist])) /\ UNCHANGED <<fs, hist>>
  ELSE hist' = Append(hist, Draw) /\ UNCHANGED <<fs, done>>
Spec == Init /\ [][Next]_vars
=============================================================================
