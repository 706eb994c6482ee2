------------------------------ MODULE CacheGen ------------------------------
(* Schedules of the cache model, printed for replay: the requests and the order in which gates are passed. *)
EXTENDS CacheImpl, Json
Emit == AllDone => PrintT("ZZGEN " \o ToJson([req |-> [p \in Procs |-> req[p]], sched |-> hist]))
=============================================================================
