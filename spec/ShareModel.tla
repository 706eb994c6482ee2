----------------------------- MODULE ShareModel -----------------------------
(***************************************************************************)
(* Several processes compute with field elements (or exponents, or points) *)
(* at the same time.  Every process has elements of its own; some elements *)
(* are shared by all and only read.  An operation is not atomic: it looks  *)
(* at its operands, works in a scratch place, and stores its result.       *)
(* Looking at an element that is not normalized may change its internal    *)
(* representation (not its value): that is a write.  Shared elements are   *)
(* normalized before they are shared (Normalize promises that later reads  *)
(* do not write), and the scratch place belongs to the process.            *)
(*                                                                         *)
(* What is demanded of every history: each process gets what it would get  *)
(* alone (Alone), shared elements stay (SharedStay), and no two processes  *)
(* are ever about to touch the same place, one of them writing (NoRace).   *)
(* The recorded histories of the real code are validated one process at a  *)
(* time against the sequential specifications, which is what Alone says.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, NOwn, NShared, Q, MaxOps, ScratchOf, SharedNormal
\* ScratchOf: "own" or "one" (a single place for all: what must not be); SharedNormal: TRUE or FALSE

Own == 1..NOwn
Shr == (NOwn + 1)..(NOwn + NShared)
Val == 0..(Q - 1)
VARIABLES el,      \* el[p][i]: own elements, [v |-> value, n |-> normalized]
          sh,      \* shared elements
          scr,     \* scratch places
          pc, op,  \* where each process is
          alone,   \* what each process's own elements would be had it run alone
          cnt
vars == <<el, sh, scr, pc, op, alone, cnt>>

None == [k |-> "none", z |-> 1, x |-> 1, y |-> 1]
Place(p) == IF ScratchOf = "own" THEN p ELSE 0
Elem(p, i) == IF i \in Own THEN el[p][i] ELSE sh[i]
F(k, a, b) == CASE k = "add" -> (a + b) % Q [] k = "mul" -> (a * b) % Q [] k = "sub" -> (a - b) % Q

Init == /\ el = [p \in Procs |-> [i \in Own |-> [v |-> i % Q, n |-> TRUE]]]
        /\ sh = [i \in Shr |-> [v |-> (i + 1) % Q, n |-> SharedNormal]]
        /\ scr = [p \in Procs \cup {0} |-> 0]
        /\ pc = [p \in Procs |-> "idle"]
        /\ op = [p \in Procs |-> None]
        /\ alone = [p \in Procs |-> [i \in Own |-> i % Q]]
        /\ cnt = [p \in Procs |-> 0]

Begin(p) == /\ pc[p] = "idle" /\ cnt[p] < MaxOps
            /\ \E k \in {"add", "mul", "sub"}, z \in Own, x, y \in Own \cup Shr :
                 op' = [op EXCEPT ![p] = [k |-> k, z |-> z, x |-> x, y |-> y]]
            /\ pc' = [pc EXCEPT ![p] = "look"]
            /\ UNCHANGED <<el, sh, scr, alone, cnt>>
\* the operands are looked at; those not normalized become so
Look(p) == LET o == op[p] IN
           /\ pc[p] = "look"
           /\ scr' = [scr EXCEPT ![Place(p)] = F(o.k, Elem(p, o.x).v, Elem(p, o.y).v)]
           /\ el' = [el EXCEPT ![p] = [i \in Own |-> IF i \in {o.x, o.y} THEN [@[i] EXCEPT !.n = TRUE] ELSE @[i]]]
           /\ sh' = [i \in Shr |-> IF i \in {o.x, o.y} THEN [sh[i] EXCEPT !.n = TRUE] ELSE sh[i]]
           /\ pc' = [pc EXCEPT ![p] = "store"]
           /\ UNCHANGED <<op, alone, cnt>>
Store(p) == LET o == op[p] IN
            /\ pc[p] = "store"
            /\ \E n \in BOOLEAN : el' = [el EXCEPT ![p][o.z] = [v |-> scr[Place(p)], n |-> n]]
            /\ alone' = [alone EXCEPT ![p][o.z] =
                  LET w(i) == IF i \in Own THEN alone[p][i] ELSE (i + 1) % Q IN F(o.k, w(o.x), w(o.y))]
            /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
            /\ op' = [op EXCEPT ![p] = None]
            /\ UNCHANGED <<sh, scr>>
Next == \E p \in Procs : Begin(p) \/ Look(p) \/ Store(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Look(p) \/ Store(p))

Reads(p) == CASE pc[p] = "look" -> {IF i \in Own THEN <<p, i>> ELSE <<0, i>> : i \in {op[p].x, op[p].y}}
              [] pc[p] = "store" -> {<<-1, Place(p)>>}
              [] OTHER -> {}
Writes(p) == CASE pc[p] = "look" -> {IF i \in Own THEN <<p, i>> ELSE <<0, i>> : i \in {j \in {op[p].x, op[p].y} : ~Elem(p, j).n}}
                                       \cup {<<-1, Place(p)>>}
               [] pc[p] = "store" -> {<<p, op[p].z>>}
               [] OTHER -> {}

TypeOK == /\ \A p \in Procs, i \in Own : el[p][i].v \in Val
          /\ \A i \in Shr : sh[i].v \in Val
Alone == \A p \in Procs : \A i \in Own : el[p][i].v = alone[p][i]
SharedStay == \A i \in Shr : sh[i] = [v |-> (i + 1) % Q, n |-> SharedNormal]
NoRace == \A p, q \in Procs : p # q => Writes(p) \cap (Reads(q) \cup Writes(q)) = {}
Ends == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
=============================================================================
