----------------------------- MODULE ErrDataModel -----------------------------
(* Small instance of ErrData: all histories of a few operations over two parameters and three struct types. *)
EXTENDS ErrData
CONSTANTS MaxErr, Few
VARIABLES E, last
vars == <<E, last>>

\* the first values of the pool used by the harness
Pool == << [ty |-> "nil", cls |-> 1, cmp |-> TRUE, nan |-> FALSE], [ty |-> "int", cls |-> 1, cmp |-> TRUE, nan |-> FALSE],
           [ty |-> "int", cls |-> 2, cmp |-> TRUE, nan |-> FALSE], [ty |-> "[]int", cls |-> 1, cmp |-> FALSE, nan |-> FALSE],
           [ty |-> "[]int", cls |-> 2, cmp |-> FALSE, nan |-> FALSE], [ty |-> "string", cls |-> 1, cmp |-> TRUE, nan |-> FALSE] >>
Zero == [t \in {"int", "any", "[]int"} |-> CASE t = "int" -> 2 [] t = "any" -> 1 [] t = "[]int" -> 5]
Leaf(n, ty) == [name |-> n, exp |-> TRUE, kind |-> "leaf", ty |-> ty, sub |-> <<>>]
Shape == [T0 |-> <<>>, SA |-> << Leaf("A", "int") >>, SAB |-> << Leaf("A", "int"), Leaf("B", "any") >>]
Types == IF Few THEN {"SA", "SAB"} ELSE DOMAIN Shape
StructVals == [T0 |-> { [p \in {} |-> 0] },
               SA |-> { [p \in {<<1>>} |-> v] : v \in {2, 3} },
               SAB |-> { [p \in {<<1>>, <<2>>} |-> IF p = <<1>> THEN v ELSE w] : v \in {3}, w \in IF Few THEN {1} ELSE {1, 4, 6} }]
PairLists == IF Few THEN { << <<"A", 3>> >>, << <<"A", 6>>, <<"B", 4>> >> }
             ELSE { <<>>, << <<"A", 3>> >>, << <<"A", 2>> >>, << <<"A", 1>> >>, << <<"B", 4>> >>, << <<"A", 6>>, <<"B", 3>> >>, << <<"B", 3>>, <<"B", 1>> >> }
Modes == {"prefer", "replace", "assert"}

Base == [how |-> "", T |-> "T0", st |-> "", base |-> 0, txt |-> "", id |-> 0, mode |-> "replace", nmode |-> 0, miss |-> "ensure",
         ps |-> <<>>, sv |-> <<>>, name |-> "", odd |-> FALSE, badkey |-> FALSE, skip |-> FALSE, subs |-> <<>>, cls |-> 0]
Bases == 0..Len(E)
Id == Len(E) + 1
MapOps == { [Base EXCEPT !.how = h, !.T = t, !.st = t, !.base = b, !.txt = x, !.id = Id, !.mode = m, !.miss = z, !.ps = ps] :
            h \in IF Few THEN {"map"} ELSE {"map", "add_params"}, t \in Types, b \in Bases, x \in IF Few THEN {"plain"} ELSE {"", "plain"}, m \in Modes, z \in {"zero", "ensure"}, ps \in PairLists }
AnyOps == { [Base EXCEPT !.how = h, !.base = b, !.txt = "", !.id = Id, !.mode = m, !.ps = ps] : h \in {"add_any_map"}, b \in Bases, m \in Modes, ps \in PairLists }
StructOps == UNION { { [Base EXCEPT !.how = h, !.T = t, !.st = t, !.base = b, !.txt = "plain", !.id = Id, !.mode = m, !.nmode = 1, !.sv = sv] :
                       h \in IF Few THEN {"struct"} ELSE {"struct", "add_struct"}, b \in Bases, m \in Modes, sv \in StructVals[t] } : t \in Types }
DelOps == { [Base EXCEPT !.how = "del", !.T = t, !.st = t, !.base = b, !.miss = z, !.name = n] : t \in Types, b \in Bases, z \in {"zero", "ensure"}, n \in {"A", "B"} }
          \cup { [Base EXCEPT !.how = "del_any", !.base = b, !.name = n] : b \in Bases, n \in {"A", "B"} }
AsOps == { [Base EXCEPT !.how = "as", !.T = t, !.st = t, !.base = b, !.miss = z, !.skip = s] : t \in Types, b \in Bases, z \in {"zero", "ensure"}, s \in IF Few THEN {FALSE} ELSE BOOLEAN }
Foreigns == { [Base EXCEPT !.how = "plain", !.id = Id], [Base EXCEPT !.how = "boxable", !.id = Id], [Base EXCEPT !.how = "val", !.id = 1, !.cls = 1] }
            \cup { [Base EXCEPT !.how = "wrap", !.base = b, !.id = Id] : b \in 1..Len(E) }
            \cup { [Base EXCEPT !.how = "join", !.subs = <<a, b>>, !.id = Id] : a \in 1..Len(E), b \in 1..Len(E) }
            \cup { [Base EXCEPT !.how = "inc", !.base = b, !.cls = IF E[b].kind = "ewd" THEN 1 ELSE 0] :
                   b \in { k \in 1..Len(E) : E[k].kind = "boxable" \/ (E[k].kind = "ewd" /\ E[k].cls = 1) } }
            \cup { [Base EXCEPT !.how = "boxewd", !.base = b, !.cls = c] : b \in { k \in 1..Len(E) : E[k].kind = "ewd" /\ E[k].cls = 0 }, c \in {1} }
Ops == MapOps \cup AnyOps \cup StructOps \cup DelOps \cup AsOps \cup Foreigns

Shaped(o) == o @@ [sh |-> Shape[o.T]]
Init == E = <<>> /\ last = [o |-> Base, out |-> "none"]
Next == /\ Len(E) < MaxErr
        /\ \E o \in Ops :
           LET r == Apply(Pool, Zero, E, Shaped(o)) IN
           /\ E' = IF r.out = "ok" THEN Append(E, r.e) ELSE E
           /\ last' = [o |-> o, out |-> r.out]
Spec == Init /\ [][Next]_vars
\* histories that start with the two sentinels for an end of file
EofInit == E = << Foreign(<<>>, [Base EXCEPT !.how = "plain", !.id = 1]), Foreign(<<>>, [Base EXCEPT !.how = "plain", !.id = 2]) >> /\ last = [o |-> Base, out |-> "none"]
EofSpec == EofInit /\ [][Next]_vars

----------------------------------------------------------------------------
\* a typed error always gives its struct, and storing and reading a struct changes nothing
Guarantee == \A k \in DOMAIN E : E[k].st # "" => CanMake(Pool, E[k].own, Shape[E[k].st], "ensure")
\* wrapped errors are found, errors above are not
Identity == \A k \in DOMAIN E : /\ Is(E, k, k)
                                /\ \A t \in DOMAIN E : t > k /\ Is(E, k, t) => E[t].kind \in {"val", "inc"}
                                /\ \A i \in DOMAIN E[k].subs : Is(E, k, E[k].subs[i])
Transitive == \A a, b, c \in DOMAIN E : Is(E, a, b) /\ Is(E, b, c) /\ E[a].kind # "inc" /\ E[b].kind # "inc" => Is(E, a, c)
NoBoxInside == \A k \in DOMAIN E : E[k].kind = "ewd" /\ E[k].cls = 0 => \A i \in DOMAIN E[k].subs : E[E[k].subs[i]].kind # "inc"
\* errors are never changed
Immutable == [][\A k \in DOMAIN E : E'[k] = E[k]]_vars
\* the last operation did what its mode says
New == E[Len(E)]
Old == Data(E, last.o.base)
Given == IF last.o.how \in {"struct", "add_struct"} THEN Params(last.o.sv, Shape[last.o.T]) ELSE Fn(last.o.ps)
Merging == last.out = "ok" /\ last.o.how \in {"map", "add_params", "add_any_map", "struct", "add_struct"}
Merged == Merging => /\ DOMAIN Old \cup DOMAIN Given \subseteq DOMAIN New.own
                     /\ \A x \in DOMAIN New.own :
                          /\ x \in DOMAIN Old \ DOMAIN Given => New.own[x] = Old[x]
                          /\ x \in DOMAIN Given \ DOMAIN Old => New.own[x] = Given[x]
                          /\ x \in DOMAIN Old \cap DOMAIN Given => New.own[x] = IF last.o.mode = "replace" THEN Given[x] ELSE Old[x]
                          /\ x \notin DOMAIN Old \cup DOMAIN Given => last.o.miss = "zero" /\ New.own[x] \in {1, 2, 5}
                     /\ last.o.mode = "assert" => ~Conflict(Pool, Old, Given)
Deleted == last.out = "ok" /\ last.o.how = "del_any" => New.own = Without(Old, last.o.name)
ReadBack == last.out = "ok" /\ last.o.how \in {"struct", "add_struct"} /\ last.o.mode = "replace"
            => \A p \in DOMAIN last.o.sv : Struct(Pool, Zero, New.own, Shape[last.o.T])[p] = last.o.sv[p]
NilStays == last.o.base = 0 /\ last.o.how \in {"add_params", "add_any_map", "add_struct", "del", "del_any", "as"} => last.out = "nil"
\* translating an end of file, with any two of the plain errors as the sentinels
Plains == { k \in DOMAIN E : E[k].kind = "plain" }
EofLaw(f, u, k, typed) ==
  LET st == IF k = 0 THEN "" ELSE E[k].st
      r == Eof(E, k, f, u, typed, st)
      EE == IF r.out = "ok" THEN Append(E, r.e) ELSE E
      n == IF r.out = "ok" THEN Len(EE) ELSE r.k
      hit == k # 0 /\ Is(E, k, f)
      kept == typed /\ st # "" /\ k # 0 /\ E[k].kind = "ewd"
  IN IF ~hit THEN n = k
     ELSE /\ Is(EE, n, u)
          /\ ~Is(EE, n, f)
          /\ Data(EE, n) = Data(E, k)
          /\ kept => (EE[n].st = st /\ CanMake(Pool, Data(EE, n), Shape[st], "ensure"))
EofLaws == \A f, u \in Plains : f = u \/ \A k \in 0..Len(E) : \A typed \in BOOLEAN : EofLaw(f, u, k, typed)
=============================================================================
