------------------------------- MODULE ErrData -------------------------------
(***************************************************************************)
(* Data attached to errors: a growing list of errors, each wrapping an     *)
(* earlier one (or several, or nothing), and the operations that create    *)
(* new errors from old ones.  Errors are values: no operation changes an   *)
(* existing entry of the list.                                             *)
(*                                                                         *)
(* Pool[v] describes value v: ty (dynamic type, "nil" for the untyped nil) *)
(* cls (values of one type are equal iff they have the same class), cmp    *)
(* (can be compared), nan (unequal to itself).  Zero[ty] is the zero value.*)
(*                                                                         *)
(* A struct type is a sequence of fields                                   *)
(*   [name, exp, kind, ty, sub]                                            *)
(* kind "leaf" (of type ty), "emb" (embedded struct with fields sub),      *)
(* "embptr" (embedded pointer to struct); a type that is no struct at all  *)
(* is given as a single entry of kind "nostruct".                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* struct types *)
RECURSIVE Leaves(_, _, _)
\* all leaf fields with the path of field numbers leading to them
Leaves(sh, i, path) ==
  IF i > Len(sh) THEN <<>>
  ELSE (IF sh[i].kind = "leaf" THEN <<[name |-> sh[i].name, exp |-> sh[i].exp, ty |-> sh[i].ty, path |-> Append(path, i)]>>
        ELSE IF sh[i].kind = "emb" THEN Leaves(sh[i].sub, 1, Append(path, i)) ELSE <<>>)
       \o Leaves(sh, i + 1, path)
RECURSIVE HasEmbPtr(_)
HasEmbPtr(sh) == \E i \in DOMAIN sh : sh[i].kind \in {"embptr", "nostruct"} \/ (sh[i].kind = "emb" /\ HasEmbPtr(sh[i].sub))
Below(path, q) == Len(q) >= Len(path) - 1 /\ SubSeq(q, 1, Len(path) - 1) = SubSeq(path, 1, Len(path) - 1)

AllLeaves(sh) == LET s == Leaves(sh, 1, <<>>) IN { s[i] : i \in DOMAIN s }
\* leaf f hides leaf g of the same name: it is closer to the root, and in a struct that contains g
Hides(f, g) == f.name = g.name /\ Len(f.path) < Len(g.path) /\ Below(f.path, g.path)
Visible(sh) == { f \in AllLeaves(sh) : ~ \E g \in AllLeaves(sh) : g.name = f.name /\ Len(g.path) < Len(f.path) }
Suitable(sh) == /\ ~HasEmbPtr(sh)
                /\ \A f \in AllLeaves(sh) : f.exp
                /\ \A f \in Visible(sh), g \in AllLeaves(sh) : f.name = g.name => f = g \/ Hides(f, g)

----------------------------------------------------------------------------
(* values *)
NilTypes == {"any", "error", "*int", "[]int", "*Named", "func"}
IfaceTypes == {"any", "error"}
\* may value v be stored in a field of type ty?
Fits(Pool, v, ty) == CASE Pool[v].ty = "nil" -> ty \in NilTypes
                       [] ty = "any" -> TRUE
                       [] ty = "error" -> Pool[v].ty = "errs"
                       [] OTHER -> Pool[v].ty = ty
\* the value a field of type ty has after that
Stored(Pool, Zero, v, ty) == IF Pool[v].ty = "nil" THEN Zero[ty] ELSE v
Same(Pool, v, w) ==
  IF Pool[v].ty # Pool[w].ty THEN "ne"
  ELSE IF ~Pool[v].cmp THEN "refused"
  ELSE IF Pool[v].nan \/ Pool[v].cls # Pool[w].cls THEN "ne" ELSE "eq"

----------------------------------------------------------------------------
(* parameter maps: functions from names to values *)
Fn(prs) == [x \in {prs[i][1] : i \in DOMAIN prs} |->
              prs[CHOOSE i \in DOMAIN prs : prs[i][1] = x /\ \A j \in DOMAIN prs : prs[j][1] = x => j <= i][2]]
Empty == [x \in {} |-> 0]
Ext(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN a THEN a[x] ELSE b[x]]
Restrict(m, S) == [x \in DOMAIN m \cap S |-> m[x]]
Without(m, n) == [x \in DOMAIN m \ {n} |-> m[x]]
Conflict(Pool, old, new) == \E x \in DOMAIN old \cap DOMAIN new : Same(Pool, old[x], new[x]) # "eq"
Merge(old, new, mode) == IF mode = "replace" THEN Ext(new, old) ELSE Ext(old, new)
MergeFails(Pool, old, new, mode) == mode = "unset" \/ (mode = "assert" /\ Conflict(Pool, old, new))

\* data that a struct can be made from
Missing(m, sh) == { f \in Visible(sh) : f.name \notin DOMAIN m }
WrongType(Pool, m, sh) == \E f \in Visible(sh) : f.name \in DOMAIN m /\ ~Fits(Pool, m[f.name], f.ty)
CanMake(Pool, m, sh, miss) == ~WrongType(Pool, m, sh) /\ (miss = "zero" \/ Missing(m, sh) = {})
Filled(Zero, m, sh) == Ext(m, [x \in { f.name : f \in Missing(m, sh) } |->
                                  Zero[(CHOOSE f \in Missing(m, sh) : f.name = x).ty]])
\* the struct value: a function from paths to values; hidden fields are zero
Struct(Pool, Zero, m, sh) ==
  [p \in { f.path : f \in AllLeaves(sh) } |->
     LET f == CHOOSE g \in AllLeaves(sh) : g.path = p IN
     IF f \in Visible(sh) /\ f.name \in DOMAIN m THEN Stored(Pool, Zero, m[f.name], f.ty) ELSE Zero[f.ty]]
\* parameters that a struct value gives
Params(sv, sh) == [x \in { f.name : f \in Visible(sh) } |-> sv[(CHOOSE f \in Visible(sh) : f.name = x).path]]

----------------------------------------------------------------------------
(* errors: E[k] = [kind, subs, own, st, cls, tok]; index 0 is the nil error.
   kinds: "plain" (identity only), "val" (a comparable value: equal to others with the same cls), "wrap" (wraps subs[1]),
   "join" (wraps all of subs), "ewd" (error with data own, wraps subs[1] if any; guarantees data for struct type st if that is not "";
   cls = 1: may be boxed), "boxable" (may be boxed), "inc" (incomparable box around subs[1]; cls = 1: error with data, 2: typed).
   tok: the message as a sequence of text numbers (0 separates joined messages, -1: message not modelled here). *)
Err(kind, subs, own, st, cls, tok) == [kind |-> kind, subs |-> subs, own |-> own, st |-> st, cls |-> cls, tok |-> tok]
Unbox(E, k) == IF k # 0 /\ E[k].kind = "inc" THEN E[k].subs[1] ELSE k
IsEwd(E, k) == k # 0 /\ (E[k].kind = "ewd" \/ (E[k].kind = "inc" /\ E[k].cls > 0))
\* what errors.Unwrap gives (boxes hide what is below)
Below1(E, k) == IF k = 0 THEN 0
                ELSE IF E[k].kind \in {"wrap", "ewd"} /\ E[k].subs # <<>> THEN E[k].subs[1] ELSE 0

RECURSIVE Data(_, _)
Data(E, k) == IF k = 0 THEN Empty
              ELSE IF IsEwd(E, k) THEN E[Unbox(E, k)].own
              ELSE Data(E, Below1(E, k))
\* does the error itself guarantee data for struct type st?
Typed(E, k, st) == k # 0 /\ st # "" /\ (E[k].kind = "ewd" \/ (E[k].kind = "inc" /\ E[k].cls = 2)) /\ E[Unbox(E, k)].st = st

\* everything reachable by unwrapping, in the order in which it is visited
RECURSIVE Walk(_, _), WalkAll(_, _, _)
Walk(E, k) == IF k = 0 THEN <<>>
              ELSE IF E[k].kind = "join" THEN <<k>> \o WalkAll(E, E[k].subs, 1)
              ELSE <<k>> \o Walk(E, Below1(E, k))
WalkAll(E, s, i) == IF i > Len(s) THEN <<>> ELSE Walk(E, s[i]) \o WalkAll(E, s, i + 1)
Identical(E, j, t) == IF E[j].kind = "val" /\ E[t].kind = "val" THEN E[j].cls = E[t].cls
                      ELSE Unbox(E, j) = Unbox(E, t)
Is(E, k, t) == IF k = 0 \/ t = 0 THEN k = t
               ELSE LET w == Walk(E, k) IN \E i \in DOMAIN w : Identical(E, w[i], t)
First(E, k, P(_)) == LET w == Walk(E, k) IN
                     IF \E i \in DOMAIN w : P(w[i]) THEN w[CHOOSE i \in DOMAIN w : P(w[i]) /\ \A j \in 1..(i - 1) : ~P(w[j])] ELSE 0

RECURSIVE JoinTok(_, _, _)
JoinTok(E, s, i) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 THEN <<0>> ELSE <<>>) \o E[s[i]].tok \o JoinTok(E, s, i + 1)

Result(out, e) == [out |-> out, e |-> e]
Nothing == Err("none", <<>>, Empty, "", 0, <<>>)

(* errors not made by the package (o.how is the kind) and incomparable boxes *)
ForeignHows == {"plain", "val", "boxable", "wrap", "join", "boxewd", "inc"}
Foreign(E, o) ==
  CASE o.how \in {"plain", "val", "boxable"} -> Err(o.how, <<>>, Empty, "", o.cls, <<o.id>>)
    [] o.how = "wrap" -> Err("wrap", <<o.base>>, Empty, "", 0, <<o.id>> \o E[o.base].tok)
    [] o.how = "join" -> Err("join", o.subs, Empty, "", 0, JoinTok(E, o.subs, 1))
    [] o.how = "boxewd" -> Err("ewd", E[o.base].subs, E[o.base].own, IF o.cls = 2 THEN E[o.base].st ELSE "", 1, E[o.base].tok)
    [] o.how = "inc" -> Err("inc", <<Unbox(E, o.base)>>, Empty, "", o.cls, E[o.base].tok)

(* creating an error with data.  o: how, sh (shape of the struct type), st (its name, "" if the result does not guarantee data), base,
   txt ("" for none, "plain", "par"), id (text number), mode, nmode (number of modes given), miss, ps (pairs), sv (struct value), name,
   odd, badkey (malformed parameter lists), skip (result wraps what the base wraps; may only be so for "as").  The result: [out, e] *)
Make(Pool, Zero, E, o) ==
  LET b    == Unbox(E, o.base)
      old  == Data(E, b)
      subs == IF b = 0 THEN <<>> ELSE IF o.how = "as" /\ o.skip /\ IsEwd(E, b) THEN E[b].subs ELSE <<b>>
      add  == o.how \in {"add_map", "add_params", "add_any_map", "add_any_params", "add_struct", "del", "del_any", "as"}
      txt  == IF add THEN "" ELSE o.txt
      tok  == CASE txt = "plain" -> <<o.id>> [] txt = "par" -> <<-1>> [] OTHER -> IF b = 0 THEN <<>> ELSE E[b].tok
      mk(m) == Result("ok", Err("ewd", subs, m, o.st, 0, tok))
      panic == Result("panic", Nothing)
      struct == o.how \in {"struct", "add_struct"}
      new  == IF struct THEN Params(o.sv, o.sh) ELSE Fn(o.ps)
      mode == IF struct /\ o.nmode = 0 THEN "replace" ELSE o.mode
      finish(m, miss) == IF CanMake(Pool, m, o.sh, miss) THEN mk(Filled(Zero, m, o.sh)) ELSE panic
  IN IF o.base = 0 /\ add THEN Result("nil", Nothing)
     ELSE IF ~Suitable(o.sh) THEN panic
     ELSE IF o.how \in {"del", "del_any"} THEN finish(Without(old, o.name), o.miss)
     ELSE IF o.how = "as" THEN
       IF CanMake(Pool, old, o.sh, o.miss) THEN mk(Filled(Zero, old, o.sh)) ELSE Result("fail", Nothing)
     ELSE IF (o.base = 0 /\ txt = "") \/ (struct /\ o.nmode > 1) \/ o.odd \/ o.badkey THEN panic
     ELSE IF MergeFails(Pool, old, new, mode) THEN panic
     ELSE finish(Merge(old, new, mode), IF struct THEN "ensure" ELSE o.miss)

(* translating an end of file (number eof) that comes too early into io.ErrUnexpectedEOF (number unexp): only errors that wrap
   the end of file change; the data stays.  typed: the result guarantees the struct type st and is an error with data in any case *)
Eof(E, base, eof, unexp, typed, st) ==
  IF base = 0 \/ ~Is(E, base, eof) THEN [out |-> "same", k |-> base]
  ELSE IF ~typed /\ Data(E, base) = Empty THEN [out |-> "same", k |-> unexp]
  ELSE [out |-> "ok", e |-> Err("ewd", <<unexp>>, Data(E, base), IF typed THEN st ELSE "", 0, E[unexp].tok)]

Apply(Pool, Zero, E, o) == IF o.how \in ForeignHows THEN Result("ok", Foreign(E, o)) ELSE Make(Pool, Zero, E, o)

=============================================================================
