--------------------------- MODULE CountersModel ---------------------------
(* All histories over three ids (edges and parenthood only from later to earlier ids, so no cycles), bounded counts. *)
EXTENDS Counters
CONSTANTS Depth
VARIABLES c, n, last
vars == <<c, n, last>>
Order == <<"a", "b", "d">>
I == { Order[i] : i \in 1..3 }
Lower(x) == { Order[i] : i \in { i \in 1..3 : \E j \in 1..3 : Order[j] = x /\ i < j } }
Ops == { [op |-> "Hier", id |-> x, name |-> "", dflt |-> x, other |-> y, odflt |-> y \o "(dummy)"] : x \in I, y \in I \cup {""} }
   \cup { [op |-> "New", id |-> x, name |-> x, other |-> y, disp |-> FALSE, root |-> TRUE] : x \in I, y \in I \cup {""} }
   \cup { [op |-> "Attached", id |-> x, name |-> x, other |-> y] : x \in I, y \in I \cup {""} }
   \cup { [op |-> "Rem", id |-> x, on |-> b] : x \in I, b \in BOOLEAN }
   \cup { [op |-> "LinkTo", id |-> x, other |-> y, m |-> m] : x \in I, y \in I, m \in {-1, 2} }
   \cup { [op |-> k, id |-> x] : k \in {"Inc", "Reset"}, x \in I }
   \cup { [op |-> "ResetAll", id |-> ""] }
Acyclic(o) == ("other" \in DOMAIN o /\ o.other # "") => o.other \in Lower(o.id)
Init == c = <<>> /\ n = 0 /\ last = [op |-> "ResetAll", id |-> ""]
Next == n < Depth /\ \E o \in Ops : Acyclic(o) /\ n' = n + 1 /\ last' = o /\ c' = IF Refused(c, o) THEN c ELSE After(c, o)
Spec == Init /\ [][Next]_vars
View == <<c, n>>

Conserve == \A x \in DOMAIN c : c[x].rem => Total(c, x) = Rest(c, x) + SumOver(c[x].kids, LAMBDA k : Total(c, k))
Parents == \A x \in DOMAIN c : Cardinality({ y \in DOMAIN c : x \in c[y].kids }) <= 1
(* an increment moves every value by the weight of the paths *)
RECURSIVE Weight(_, _)
Weight(s, t) == (IF s = t THEN 1 ELSE 0) + SumOver(DOMAIN c[s].to, LAMBDA u : c[s].to[u] * Weight(u, t))
Linear == \A x \in DOMAIN c : Total(c, x) = SumOver(DOMAIN c, LAMBDA s : c[s].dir * Weight(s, x))
(* the order of creation does not matter *)
Commute == \A o1, o2 \in Ops : (o1.op = "Hier" /\ o2.op = "Hier" /\ o1.id # o2.id /\ Acyclic(o1) /\ Acyclic(o2) /\ ~Refused(c, o1) /\ ~Refused(c, o2))
             => After(After(c, o1), o2) = After(After(c, o2), o1)
Quiet == [][last'.op = "ResetAll" => \A x \in DOMAIN c' : Total(c', x) = 0]_vars
(* a step changes only what its operation is about *)
Frame == [][ \A x \in DOMAIN c : (c'[x] # c[x]) =>
               \/ last'.op = "ResetAll" \/ last'.id = x
               \/ ("other" \in DOMAIN last' /\ last'.other = x /\ c'[x].dir = c[x].dir /\ c'[x].to = c[x].to) ]_vars
Grow == [][DOMAIN c \subseteq DOMAIN c']_vars
=============================================================================
