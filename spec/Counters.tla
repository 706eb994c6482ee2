------------------------------ MODULE Counters ------------------------------
(***************************************************************************)
(* Call counters.  State: a function c from ids to records                 *)
(*   dir   number of increments of this counter since its last reset       *)
(*   init  created (FALSE: only referred to so far)                        *)
(*   disp  displayed;  root  starting point of reports;  name              *)
(*   kids  ids displayed below this one                                    *)
(*   rem   an implicit extra child shows what the other children leave     *)
(*   to    weighted recursive "adds to" edges                              *)
(* The value of a counter is its own increments plus what reaches it over  *)
(* the edges.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Fresh == [dir |-> 0, init |-> FALSE, disp |-> FALSE, root |-> FALSE, name |-> "", kids |-> {}, rem |-> FALSE, to |-> <<>>]
Ids(c) == DOMAIN c
Ensure(c, id) == IF id \in DOMAIN c THEN c ELSE c @@ (id :> Fresh)
Created(c, id) == id \in DOMAIN c /\ c[id].init

(* add m to the weight of the edge src -> dst; both exist *)
AddEdge(c, src, dst, m) ==
  LET t == c[src].to
      w == (IF dst \in DOMAIN t THEN t[dst] ELSE 0) + m
      rest == [x \in DOMAIN t \ {dst} |-> t[x]]
  IN [c EXCEPT ![src].to = IF w = 0 THEN rest ELSE rest @@ (dst :> w)]

SumOver(S, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(S))

RECURSIVE Total(_, _)
Total(c, id) == c[id].dir + SumOver({ s \in DOMAIN c : id \in DOMAIN c[s].to }, LAMBDA s : c[s].to[id] * Total(c, s))
Rest(c, id) == Total(c, id) - SumOver(c[id].kids, LAMBDA k : Total(c, k))

(* is dst reachable from src over edges or parenthood?  (new edges must not close a cycle) *)
RECURSIVE Reach(_, _, _)
Reach(c, S, n) == IF n = 0 THEN S ELSE Reach(c, S \cup UNION { DOMAIN c[s].to : s \in S }, n - 1)

Refused(c, o) ==
  \/ o.id = "" /\ o.op # "ResetAll"
  \/ o.op \in {"Hier", "New", "Attached"} /\ Created(c, o.id)
  \/ o.op = "Inc" /\ ~Created(c, o.id)
  \/ o.op \in {"LinkTo", "LinkFrom"} /\ o.other = "" /\ o.m # 0

Make(c, id, name, disp, root) == [Ensure(c, id) EXCEPT ![id].init = TRUE, ![id].name = name, ![id].disp = disp, ![id].root = root]

After(c, o) ==
  CASE o.op = "Hier" ->
         LET c1 == Make(c, o.id, IF o.name = "" THEN o.dflt ELSE o.name, TRUE, o.other = "")
         IN IF o.other = "" THEN c1
            ELSE LET c2 == IF o.other \in DOMAIN c1 THEN c1
                           ELSE c1 @@ (o.other :> [Fresh EXCEPT !.root = TRUE, !.disp = TRUE, !.name = o.odflt])
                 IN AddEdge([c2 EXCEPT ![o.other].kids = @ \cup {o.id}], o.id, o.other, 1)
    [] o.op = "New" ->
         LET c1 == Make(c, o.id, o.name, o.disp, o.root)
         IN IF o.other = "" THEN c1 ELSE [Ensure(c1, o.other) EXCEPT ![o.other].kids = @ \cup {o.id}]
    [] o.op = "Attached" ->
         LET c1 == Make(c, o.id, o.name, TRUE, FALSE)
         IN IF o.other = "" THEN c1 ELSE [Ensure(c1, o.other) EXCEPT ![o.other].kids = @ \cup {o.id}, ![o.other].rem = TRUE]
    [] o.op = "Rem" -> [Ensure(c, o.id) EXCEPT ![o.id].rem = o.on]
    [] o.op = "LinkTo" -> IF o.m = 0 THEN c ELSE AddEdge(Ensure(Ensure(c, o.id), o.other), o.id, o.other, o.m)
    [] o.op = "LinkFrom" -> IF o.m = 0 THEN c ELSE AddEdge(Ensure(Ensure(c, o.id), o.other), o.other, o.id, o.m)
    [] o.op = "Inc" -> [c EXCEPT ![o.id].dir = @ + 1]
    [] o.op = "Reset" -> [Ensure(c, o.id) EXCEPT ![o.id].dir = 0]
    [] o.op = "ResetAll" -> [x \in DOMAIN c |-> [c[x] EXCEPT !.dir = 0]]

(* ---- reports: forests, siblings in any order *)
RECURSIVE Node(_, _, _, _, _)
(* what a report of the subtree of id shows; pos: skip zero counters; all: also hidden ones; depth, below a hidden node *)
Node(c, id, pos, all, byName) ==
  [tag |-> IF byName THEN c[id].name ELSE id, calls |-> Total(c, id), hid |-> ~c[id].disp, ini |-> c[id].init,
   kids |-> { Node(c, k, pos, all, byName) : k \in { k \in c[id].kids : (all \/ c[k].disp) /\ (pos => Total(c, k) # 0) } }
            \cup IF c[id].rem /\ (pos => Rest(c, id) # 0)
                 THEN { [tag |-> IF byName THEN id \o "(other)" ELSE id \o "Other", calls |-> Rest(c, id), hid |-> FALSE, ini |-> TRUE, kids |-> {}] } ELSE {}]

Forest(c, pos, all, byName) ==
  { Node(c, r, pos, all, byName) : r \in { r \in DOMAIN c : c[r].root /\ (all \/ c[r].disp) /\ (pos => Total(c, r) # 0) } }

(* does list (from position i) start with a preorder of the forest S?  0 if not, else the position behind it *)
RECURSIVE Eat(_, _, _, _)
Eat(list, i, S, depth) ==
  IF S = {} THEN i
  ELSE IF i > Len(list) THEN 0
  ELSE LET m == { n \in S : n.tag = list[i].tag } IN
       IF m = {} THEN 0
       ELSE LET n == CHOOSE n \in m : TRUE
                own == /\ ("calls" \in DOMAIN list[i] => n.calls = list[i].calls)
                       /\ ("depth" \in DOMAIN list[i] => depth = list[i].depth /\ n.ini = list[i].ini /\ n.hid = list[i].hid)
                j == IF own THEN Eat(list, i + 1, n.kids, depth + 1) ELSE 0
            IN IF j = 0 THEN 0 ELSE Eat(list, j, S \ {n}, depth)
ReportOK(list, S) == Eat(list, 1, S, 0) = Len(list) + 1

RECURSIVE Below(_, _)
Below(c, id) == {id} \cup UNION { Below(c, k) : k \in c[id].kids }
Shown(c) == UNION { Below(c, r) : r \in { r \in DOMAIN c : c[r].root } }

(* an entry of the structure report is below a hidden one of its own tree *)
UnderHidden(list, i) == \E j \in 1..(i - 1) : list[j].hid /\ list[j].depth < list[i].depth /\ (\A k \in (j + 1)..i : list[k].depth > list[j].depth)
=============================================================================
