------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of all trace specifications.  A trace file contains one     *)
(* episode per line: a record with a field "ev", the sequence of recorded  *)
(* calls, and further fields describing the initial state.  Every episode  *)
(* is an initial state; TLC advances them independently.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.ZZTRACE)

Has(r, f) == f \in DOMAIN r
Get(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt
Range(s) == { s[i] : i \in DOMAIN s }

(* report a recorded call the specification does not allow *)
Reject(e, l, what, expected) ==
  PrintT("ZZMISMATCH " \o ToJson([ep |-> e, id |-> Trace[e].id, line |-> l, op |-> Trace[e].ev[l].op,
                                  what |-> what, expected |-> expected]))
=============================================================================
