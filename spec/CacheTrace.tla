----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Recorded concurrent histories of the cache.  Events are in real time    *)
(* order: call / ret of a request (c: its number), and begin / end of a    *)
(* creation callback.  For every key the history must be explained by one  *)
(* base: no prepared elements (0), or those inserted by one request c.     *)
(* cand[k] is the set of explanations still possible.                      *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES e, l, calls, cand, busy, made, bad
vars == <<e, l, calls, cand, busy, made, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ calls = <<>> /\ bad = FALSE
        /\ cand = [k \in Range(Trace[e].keys) |-> {0}] /\ busy = {} /\ made = [k \in Range(Trace[e].keys) |-> 0]

Go(cs, cd, b, m) == l' = l + 1 /\ calls' = cs /\ cand' = cd /\ busy' = b /\ made' = m /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, calls, cand, busy, made>>

(* a call is [k, op, n, vals, done, late]; late: the key was surely in use when the insertion started *)
InUse(k) == \E c \in DOMAIN calls : calls[c].k = k /\ (calls[c].op = "pre" \/ calls[c].n > 0)
Settled(k) == \E c \in DOMAIN calls : calls[c].k = k /\ calls[c].done /\ (calls[c].op = "pre" \/ calls[c].n > 0)
Base(b) == IF b = 0 THEN <<>> ELSE calls[b].vals
Elem(k, b, i) == IF i <= Len(Base(b)) THEN Base(b)[i] ELSE [k |-> k, i |-> i - Len(Base(b))]
Explains(k, b, vals) == \A i \in 1..Len(vals) : vals[i] = Elem(k, b, i)
Most(k) == LET ns == { calls[c].n : c \in { c \in DOMAIN calls : calls[c].k = k /\ calls[c].op = "get" } } \cup {0}
           IN CHOOSE m \in ns : \A x \in ns : x <= m
Top(a, b) == IF a > b THEN a ELSE b

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     CASE o.op = "UNEXPECTED_PANIC" -> Stop("panic", o.msg)
       [] o.op = "call" ->
            Go(calls @@ (o.c :> [k |-> o.k, op |-> o.what, n |-> o.n, vals |-> o.vals, done |-> FALSE, late |-> Settled(o.k)]),
               IF o.what = "pre" /\ ~Settled(o.k) THEN [cand EXCEPT ![o.k] = @ \cup {o.c}] ELSE cand, busy, made)
       [] o.op = "ret" ->
            LET q == calls[o.c]
                fin == [calls EXCEPT ![o.c].done = TRUE]
            IN IF q.op = "get" THEN
                 LET left == { b \in cand[q.k] : Explains(q.k, b, o.vals) } IN
                 IF o.out # "ok" THEN Stop("a request failed", q)
                 ELSE IF Len(o.vals) # q.n \/ ~o.fresh THEN Stop("wrong number of elements, nil or shared memory", q)
                 ELSE IF q.n > 0 /\ left = {} THEN Stop("elements are not those of the key", cand[q.k])
                 ELSE Go(fin, IF q.n > 0 THEN [cand EXCEPT ![q.k] = left] ELSE cand, busy, made)
               ELSE IF o.out = "ok" THEN
                 IF q.late \/ o.c \notin cand[q.k] THEN Stop("elements inserted under a key in use", q)
                 ELSE Go(fin, [cand EXCEPT ![q.k] = {o.c}], busy, made)
               ELSE \* refused
                 IF \E c \in DOMAIN calls : c # o.c /\ calls[c].k = q.k /\ (calls[c].op = "pre" \/ calls[c].n > 0)
                 THEN IF cand[q.k] \ {o.c} = {} THEN Stop("refused although its elements are used", q)
                      ELSE Go(fin, [cand EXCEPT ![q.k] = @ \ {o.c}], busy, made)
                 ELSE Stop("insertion refused under an unused key", q)
       [] o.op = "create" ->
            IF o.k \in busy THEN Stop("two creations at a time for one key", o.k)
            ELSE IF ~o.rng THEN Stop("creation without the generator of the key", o.k)
            ELSE Go(calls, cand, busy \cup {o.k}, [made EXCEPT ![o.k] = @ + 1])
       [] o.op = "created" -> Go(calls, cand, busy \ {o.k}, made)
       [] o.op = "count" -> Go(calls, cand, busy, [made EXCEPT ![o.k] = o.n])
       [] o.op = "end" ->
            IF \E k \in DOMAIN cand : \A b \in cand[k] : Top(0, Most(k) - Len(Base(b))) # made[k]
            THEN Stop("number of elements created", [k \in DOMAIN cand |-> { Top(0, Most(k) - Len(Base(b))) : b \in cand[k] }])
            ELSE IF ~o.rest THEN Stop("requests left behind", 0)
            ELSE Go(calls, cand, busy, made)
       [] OTHER -> Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
