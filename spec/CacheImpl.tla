------------------------------ MODULE CacheImpl ------------------------------
(***************************************************************************)
(* The precomputed cache as a concurrent algorithm: a table lock, one      *)
(* read/write lock per page, optimistic page creation outside the lock.    *)
(* Each process performs one request: Get(k, n) or Pre(k, m), the latter   *)
(* inserting m prepared elements.  Element = <<"pre", p, i>> (i-th element *)
(* prepared by process p) or <<"new", k, i>> (i-th value drawn from the    *)
(* page's own generator for key k).                                        *)
(* Gates (start, rand, create, copy, fill) are the points where a user     *)
(* callback runs; the harness steers schedules there.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Keys, MaxN
VARIABLES req, pc, pg, res, data, pages, tlock, hist
vars == <<req, pc, pg, res, data, pages, tlock, hist>>

Requests == { [op |-> "get", k |-> k, n |-> n] : k \in Keys, n \in 0..MaxN } \cup { [op |-> "pre", k |-> k, n |-> n] : k \in Keys, n \in {0, 2} }
NewPage(k) == [k |-> k, elems |-> <<>>, drawn |-> 0, w |-> 0, r |-> {}]
None == <<"none">>

Init == /\ req \in [Procs -> Requests]
        /\ pc = [p \in Procs |-> "start"] /\ pg = [p \in Procs |-> 0] /\ res = [p \in Procs |-> None]
        /\ data = [k \in Keys |-> 0] /\ pages = <<>> /\ tlock = 0 /\ hist = <<>>

Goto(p, x) == pc' = [pc EXCEPT ![p] = x]
Gate(p) == hist' = Append(hist, p)
K(p) == req[p].k
N(p) == req[p].n

Start(p) == /\ pc[p] = "start" /\ Gate(p)
            /\ IF req[p].op = "pre" THEN Goto(p, "tlock") /\ UNCHANGED res
               ELSE IF N(p) = 0 THEN Goto(p, "done") /\ res' = [res EXCEPT ![p] = <<>>]
               ELSE Goto(p, "lookup") /\ UNCHANGED res
            /\ UNCHANGED <<req, pg, data, pages, tlock>>
Lookup(p) == /\ pc[p] = "lookup" /\ tlock = 0
             /\ pg' = [pg EXCEPT ![p] = data[K(p)]]
             /\ Goto(p, IF data[K(p)] = 0 THEN "rand" ELSE "len")
             /\ UNCHANGED <<req, res, data, pages, tlock, hist>>
Rand(p) == /\ pc[p] = "rand" /\ Gate(p)
           /\ pages' = Append(pages, NewPage(K(p))) /\ pg' = [pg EXCEPT ![p] = Len(pages) + 1]
           /\ Goto(p, "publish") /\ UNCHANGED <<req, res, data, tlock>>
Publish(p) == /\ pc[p] = "publish" /\ tlock = 0
              /\ IF data[K(p)] = 0 THEN data' = [data EXCEPT ![K(p)] = pg[p]] /\ UNCHANGED pg
                 ELSE pg' = [pg EXCEPT ![p] = data[K(p)]] /\ UNCHANGED data
              /\ Goto(p, "len") /\ UNCHANGED <<req, res, pages, tlock, hist>>
Length(p) == /\ pc[p] = "len" /\ pages[pg[p]].w = 0
             /\ IF Len(pages[pg[p]].elems) >= N(p)
                THEN Goto(p, "copy") /\ pages' = [pages EXCEPT ![pg[p]].r = @ \cup {p}]
                ELSE Goto(p, "wlock") /\ UNCHANGED pages
             /\ UNCHANGED <<req, pg, res, data, tlock, hist>>
Wlock(p) == /\ pc[p] = "wlock" /\ pages[pg[p]].w = 0 /\ pages[pg[p]].r = {}
            /\ pages' = [pages EXCEPT ![pg[p]].w = p] /\ Goto(p, "extend")
            /\ UNCHANGED <<req, pg, res, data, tlock, hist>>
Extend(p) == /\ pc[p] = "extend"
             /\ IF Len(pages[pg[p]].elems) < N(p) THEN Goto(p, "create") /\ UNCHANGED pages
                ELSE Goto(p, "rlock") /\ pages' = [pages EXCEPT ![pg[p]].w = 0]
             /\ UNCHANGED <<req, pg, res, data, tlock, hist>>
Create(p) == /\ pc[p] = "create" /\ Gate(p)
             /\ LET d == pages[pg[p]].drawn + 1 IN
                pages' = [pages EXCEPT ![pg[p]].drawn = d, ![pg[p]].elems = Append(@, <<"new", K(p), d>>)]
             /\ Goto(p, "extend") /\ UNCHANGED <<req, pg, res, data, tlock>>
Rlock(p) == /\ pc[p] = "rlock" /\ pages[pg[p]].w = 0
            /\ pages' = [pages EXCEPT ![pg[p]].r = @ \cup {p}] /\ Goto(p, "copy")
            /\ UNCHANGED <<req, pg, res, data, tlock, hist>>
Copy(p) == /\ pc[p] = "copy" /\ Gate(p)
           /\ res' = [res EXCEPT ![p] = SubSeq(pages[pg[p]].elems, 1, N(p))]
           /\ pages' = [pages EXCEPT ![pg[p]].r = @ \ {p}] /\ Goto(p, "done")
           /\ UNCHANGED <<req, pg, data, tlock>>
Tlock(p) == /\ pc[p] = "tlock" /\ tlock = 0
            /\ IF data[K(p)] # 0 THEN Goto(p, "done") /\ res' = [res EXCEPT ![p] = <<"panic">>] /\ UNCHANGED tlock
               ELSE Goto(p, "prand") /\ tlock' = p /\ UNCHANGED res
            /\ UNCHANGED <<req, pg, data, pages, hist>>
Prand(p) == /\ pc[p] = "prand" /\ Gate(p)
            /\ pages' = Append(pages, [NewPage(K(p)) EXCEPT !.w = p])
            /\ pg' = [pg EXCEPT ![p] = Len(pages) + 1] /\ data' = [data EXCEPT ![K(p)] = Len(pages) + 1]
            /\ tlock' = 0 /\ Goto(p, "fill") /\ UNCHANGED <<req, res>>
Fill(p) == /\ pc[p] = "fill" /\ Gate(p)
           /\ pages' = [pages EXCEPT ![pg[p]].elems = [i \in 1..N(p) |-> <<"pre", p, i>>], ![pg[p]].w = 0]
           /\ res' = [res EXCEPT ![p] = <<"ok">>] /\ Goto(p, "done")
           /\ UNCHANGED <<req, pg, data, tlock>>

Step(p) == Start(p) \/ Lookup(p) \/ Rand(p) \/ Publish(p) \/ Length(p) \/ Wlock(p) \/ Extend(p) \/ Create(p) \/ Rlock(p) \/ Copy(p)
           \/ Tlock(p) \/ Prand(p) \/ Fill(p)
AllDone == \A p \in Procs : pc[p] = "done"
Next == (\E p \in Procs : Step(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))
View == <<req, pc, pg, res, data, pages, tlock>>

(* ---- what the cache promises *)
Inserted(k) == { p \in Procs : req[p].op = "pre" /\ K(p) = k /\ res[p] = <<"ok">> }
Gets(k) == { p \in Procs : req[p].op = "get" /\ K(p) = k /\ pc[p] = "done" }
OnePre == \A k \in Keys : Cardinality(Inserted(k)) <= 1
Lengths == \A k \in Keys : \A p \in Gets(k) : Len(res[p]) = N(p)
Prefix == \A k \in Keys : \A p, q \in Gets(k) : \A i \in 1..N(p) : i <= N(q) => res[p][i] = res[q][i]
(* the sequence of a key: prepared elements first, then successive draws *)
Sequence(k, i) == IF Inserted(k) = {} THEN <<"new", k, i>>
                  ELSE LET p == CHOOSE p \in Inserted(k) : TRUE IN IF i <= N(p) THEN <<"pre", p, i>> ELSE <<"new", k, i - N(p)>>
AtEnd == AllDone => \A k \in Keys :
           /\ \A p \in Gets(k) : \A i \in 1..N(p) : res[p][i] = Sequence(k, i)
           /\ (Gets(k) # {} /\ \E p \in Gets(k) : N(p) > 0) => data[k] # 0
           /\ data[k] # 0 =>     \* nothing created beyond what was needed, nothing lost
                LET need == { N(p) : p \in Gets(k) } \cup { N(p) : p \in Inserted(k) } IN
                Len(pages[data[k]].elems) = CHOOSE m \in need : \A x \in need : x <= m
(* the page of a key never changes once published; its elements only grow *)
Stable == [][\A k \in Keys : data[k] # 0 => /\ data'[k] = data[k]
                                           /\ SubSeq(pages'[data[k]].elems, 1, Len(pages[data[k]].elems)) = pages[data[k]].elems]_vars
Exclusive == \A i \in DOMAIN pages : pages[i].w # 0 => pages[i].r = {}
Finishes == <>AllDone
=============================================================================
