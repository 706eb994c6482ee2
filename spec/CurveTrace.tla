----------------------------- MODULE CurveTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the real point types must be behaviours of the     *)
(* point machine.  Every event carries, for every register, the raw (decaf, *)
(* extended projective) coordinates of the object after the call, and the   *)
(* calls of the installed NaP handler made during the call.                 *)
(***************************************************************************)
EXTENDS Curve, TraceBase

CONSTANTS Order, Lambda        \* order of the subgroup, eigenvalue of the endomorphism

VARIABLES e, l, v, mode, bad
vars == <<e, l, v, mode, bad>>

(* the constants are what they are said to be *)
ASSUME Mul2(Sq(R), A) = D
ASSUME Mul2(EB, R) = One
ASSUME Chi(A) = -1 /\ Chi(D) = -1
ASSUME BMod(BAdd(BMul(Lambda, Lambda), "2"), Order) = Zero

Unset == Special("unset")
Ty == Trace[e].types
Init == e \in 1..Len(Trace) /\ l = 1 /\ v = [i \in 1..Len(Trace[e].types) |-> Unset] /\ mode = "default" /\ bad = FALSE

Go(w) == l' = l + 1 /\ v' = w /\ UNCHANGED <<e, bad, mode>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, v, mode>>

(* registers of o.raw that do not stand for the values w *)
Wrong(o, w) == { i \in 1..Len(w) : w[i] # Unset /\ (Len(o.raw) < i \/ ~Stands(Ty[i], o.raw[i], w[i])) }
Check(o, w, what) ==
  LET bads == Wrong(o, w) IN
  IF bads = {} THEN Go(w)
  ELSE LET i == CHOOSE j \in bads : TRUE IN
       Stop(what, [register |-> i, type |-> Ty[i], value |-> w[i], got |-> ValueOf(o.raw[i])])
(* a refused call may leave anything in its receiver *)
Refused(o) == [v EXCEPT ![o.z] = Unset]

Quiet(o) == o.calls = <<>>
Calls(o) == Len(o.calls) > 0
(* the handler is told that the operation was no comparison *)
Plain(o) == \A i \in DOMAIN o.calls : ~o.calls[i].c
HandlerAnswer == mode = "true"

(* the answer of a query q on x (and y), for operands that are points *)
Answer(q, o) ==
  LET p == v[o.x] t == Ty[o.x] IN
  CASE q = "IsNeutralElement" -> p = N
    [] q = "IsNaP" -> p = NaP
    [] q = "IsAtInfinity" -> IsInf(p)
    [] q = "IsInSubgroup" -> IF p = NaP THEN FALSE ELSE InSub(p)
    [] q = "IsE1" -> p = E1
    [] q = "IsE2" -> p = E2
    [] q = "IsEqual" -> v[o.x] = v[o.y]
    [] q = "Validate" -> TRUE
    [] q = "CanRepresentInfinity" -> CanInf(t)
    [] q = "CanOnlyRepresentSubgroup" -> IsSub(t)
Comparison == {"IsEqual", "IsNeutralElement"}
Blind == {"IsNaP", "CanRepresentInfinity", "CanOnlyRepresentSubgroup"}          \* never call the handler
(* for an operand that is a NaP: the handler is told, with the right kind of operation and the points involved *)
NaPAnswerOK(o) ==
  IF mode = "default" THEN o.out = "ok" /\ o.res = FALSE
  ELSE /\ Calls(o)
       /\ \A i \in DOMAIN o.calls : o.calls[i].n >= 1
       /\ (o.q \in Comparison => \E i \in DOMAIN o.calls : o.calls[i].c /\ o.calls[i].n >= (IF o.q = "IsEqual" THEN 2 ELSE 1))
       /\ IF mode = "panic" THEN o.out = "panic"
          ELSE o.out = "ok" /\ (IF \E i \in DOMAIN o.calls : o.calls[i].c THEN o.res = HandlerAnswer ELSE o.res \in {FALSE, HandlerAnswer})

(* coordinates c read by getter f from a point p *)
FullXYTZ(c, p) == ValueOf(c) = p
CooOK(f, c, p) ==
  CASE f = "X_affine" -> c = <<p.x>>
    [] f = "Y_affine" -> c = <<p.y>>
    [] f = "T_affine" -> c = <<Mul2(p.x, p.y)>>
    [] f = "XY_affine" -> c = <<p.x, p.y>>
    [] f = "XYT_affine" -> c = <<p.x, p.y, Mul2(p.x, p.y)>>
    [] f \in {"XYZ_projective", "X,Y,Z_projective"} ->
         IF IsInf(p) THEN c[1] # Zero /\ c[2] = Zero /\ c[3] = Zero
         ELSE c[3] # Zero /\ Mul2(p.x, c[3]) = c[1] /\ Mul2(p.y, c[3]) = c[2]
    [] f \in {"XYTZ_projective", "X,Y,T,Z_projective"} -> FullXYTZ(c, p)
    [] f = "decaf_projective" -> TRUE                        \* judged by raw
    [] f = "decaf_affine" -> c \in {<<p.x, p.y, Mul2(p.x, p.y)>>, <<Neg1(p.x), Neg1(p.y), Mul2(p.x, p.y)>>}
AffineGetter == {"X_affine", "Y_affine", "T_affine", "XY_affine", "XYT_affine", "decaf_affine"}

(* unnormalizable entries of a batch and the report on them *)
BatchOK(o) ==
  LET xs == o.xs
      must == { i \in 1..Len(xs) : IsInf(v[xs[i]]) }
      may == { i \in 1..Len(xs) : v[xs[i]] = NaP \/ IsInf(v[xs[i]]) }
      got == { o.idx[j] + 1 : j \in 1..Len(o.idx) }
      axis == IF o.f = "Y" THEN 2 ELSE 4 IN
  /\ must \subseteq got /\ got \subseteq may
  /\ \A j \in 1..(Len(o.idx) - 1) : o.idx[j] < o.idx[j + 1]
  /\ o.isnil = (o.idx = <<>>)
  /\ \A i \in 1..Len(xs) : (i \notin may => o.raw[xs[i]][axis] = One)

(* an exchange of handlers by concurrent callers: pairs <<installed, returned>>, handlers numbered, 0 the first one *)
SwapsOK(o) ==
  LET ids == { o.swaps[i][1] : i \in DOMAIN o.swaps }
      returned == { o.swaps[i][2] : i \in DOMAIN o.swaps }
      Prev(k) == (CHOOSE s \in Range(o.swaps) : s[1] = k)[2]
      RECURSIVE Chain(_)
      Chain(k) == IF k = 0 THEN 0 ELSE 1 + Chain(Prev(k)) IN
  /\ Cardinality(ids) = Len(o.swaps) /\ Cardinality(returned) = Len(o.swaps)
  /\ returned = (ids \cup {0}) \ {o.final}
  /\ (0 \in returned \/ Len(o.swaps) = 0)
  /\ Chain(o.final) = Len(o.swaps)

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     CASE o.op = "UNEXPECTED_PANIC" -> Stop("panic", o.msg)
       [] o.op = "mk" ->
            LET w == [v EXCEPT ![o.z] = o.v] IN
            IF ~CanHold(Ty[o.z], o.v) THEN Stop("harness: value not representable", o.v)
            ELSE Check(o, w, "object made from a point")
       [] o.op \in Moving ->
            LET want == Outcomes(Ty, v, o) r == ResultOf(v, o)
                loud == \E i \in DOMAIN Operands(o) : v[Operands(o)[i]] = NaP IN
            IF ~loud /\ ~Quiet(o) THEN Stop("handler called for valid points", <<>>)
            ELSE IF o.out \notin want /\ ~(loud /\ mode = "panic" /\ Calls(o) /\ o.out = "panic") THEN Stop("outcome of the call", [want |-> want, value |-> r])
            ELSE IF ~Plain(o) THEN Stop("handler called for a comparison", o.calls)
            ELSE IF o.out = "panic" THEN Check(o, Refused(o), "operands changed by a refused call")
            ELSE IF ~CanHold(Ty[o.z], r) THEN Stop("result cannot be held by the type", r)
            ELSE Check(o, [v EXCEPT ![o.z] = r], "registers after the call")
       [] o.op = "SetFromSubgroupPoint" ->
            LET want == SubgroupOK(v, o) nap == v[o.x] = NaP IN
            IF nap /\ mode = "panic" THEN (IF o.out = "panic" /\ Calls(o) THEN Check(o, v, "receiver changed by a failed conversion") ELSE Stop("handler must be called", <<>>))
            ELSE IF o.out # "ok" THEN Stop("panic", want)
            ELSE IF nap /\ mode # "default" /\ ~Calls(o) THEN Stop("handler must be called", <<>>)
            ELSE IF ~nap /\ ~Quiet(o) THEN Stop("handler called for valid points", <<>>)
            ELSE IF ~Plain(o) THEN Stop("handler called for a comparison", o.calls)
            ELSE IF o.res # want THEN Stop("result of the conversion", want)
            ELSE Check(o, AfterSetSub(v, o), "registers after the conversion")
       [] o.op = "Clone" ->
            IF o.ty # Ty[o.x] \/ ~o.fresh THEN Stop("clone has the same type and is a new object", Ty[o.x])
            ELSE IF ~Quiet(o) THEN Stop("handler called by Clone", <<>>)
            ELSE Check(o, [v EXCEPT ![o.z] = v[o.x]], "registers after Clone")
       [] o.op = "Is" ->
            LET nap == v[o.x] = NaP \/ (o.q = "IsEqual" /\ v[o.y] = NaP) IN
            IF o.q = "Validate" /\ nap THEN Check(o, v, "query changed a point")
            ELSE IF nap /\ o.q \notin Blind
                 THEN IF NaPAnswerOK(o) THEN Check(o, v, "query changed a point") ELSE Stop("query on a NaP", [mode |-> mode])
            ELSE IF o.out # "ok" \/ o.res # Answer(o.q, o) THEN Stop("answer of the query", [want |-> Answer(o.q, o), x |-> v[o.x]])
            ELSE IF ~Quiet(o) THEN Stop("handler called for valid points", <<>>)
            ELSE IF o.q = "IsInSubgroup" /\ o.def /\ (Times(Order, v[o.x]) = N) # o.res THEN Stop("order of the point", v[o.x])
            ELSE Check(o, v, "query changed a point")
       [] o.op = "Coo" ->
            LET p == v[o.x] IN
            IF ~Plain(o) THEN Stop("handler called for a comparison", o.calls)
            ELSE IF p = NaP THEN Check(o, v, "reading coordinates of a NaP changed it")
            ELSE IF ~Quiet(o) THEN Stop("handler called for valid points", <<>>)
            ELSE IF IsInf(p) /\ o.f \in AffineGetter
                 THEN IF o.out = "panic" THEN Check(o, v, "reading coordinates changed a point") ELSE Stop("no affine coordinates exist", p)
            ELSE IF o.out # "ok" THEN Stop("panic", p)
            ELSE IF ~CooOK(o.f, o.c, p) \/ o.c # o.again THEN Stop("coordinates", [value |-> p])
            ELSE Check(o, v, "reading coordinates changed a point")
       [] o.op = "Norm" ->
            LET p == v[o.x] want == p # NaP /\ ~IsInf(p) IN
            IF p = NaP /\ mode = "panic" THEN (IF o.out = "panic" /\ Calls(o) THEN Check(o, v, "value changed") ELSE Stop("handler must be called", <<>>))
            ELSE IF o.out # "ok" \/ o.res # want THEN Stop("normalization", want)
            ELSE IF p # NaP /\ ~Quiet(o) THEN Stop("handler called for valid points", <<>>)
            ELSE IF ~Plain(o) THEN Stop("handler called for a comparison", o.calls)
            ELSE IF want /\ o.raw[o.x][IF o.f = "Y" THEN 2 ELSE 4] # One THEN Stop("not normalized", <<>>)
            ELSE Check(o, v, "normalization changed a value")
       [] o.op = "Batch" ->
            IF o.out # "ok" THEN (IF mode = "panic" /\ Calls(o) THEN Check(o, [i \in DOMAIN v |-> Unset], "") ELSE Stop("panic", <<>>))
            ELSE IF ~Plain(o) THEN Stop("handler called for a comparison", o.calls)
            ELSE IF ~BatchOK(o) THEN Stop("batch normalization", [values |-> [i \in 1..Len(o.xs) |-> v[o.xs[i]].k]])
            ELSE IF (\A i \in 1..Len(o.xs) : v[o.xs[i]] # NaP) /\ ~Quiet(o) THEN Stop("handler called for valid points", <<>>)
            ELSE Check(o, v, "batch normalization changed a value")
       [] o.op = "Map" ->
            LET p == v[o.x] IN
            IF ~IsAff(p) THEN (IF o.out = "panic" THEN Check(o, v, "value changed") ELSE Stop("no field element for this point", p))
            ELSE IF o.out # "ok" \/ o.res # MapToField(p) THEN Stop("MapToFieldElement", MapToField(p))
            ELSE Check(o, v, "MapToFieldElement changed a point")
       [] o.op = "Handler" ->
            IF o.old # mode \/ o.now # o.set THEN Stop("exchange of handlers", mode)
            ELSE l' = l + 1 /\ mode' = o.set /\ UNCHANGED <<e, v, bad>>
       [] o.op = "Eigen" ->       \* the endomorphism is multiplication by the published eigenvalue on the subgroup
            LET p == v[o.x] IN
            IF o.lam # Lambda \/ ~InSub(p) \/ PEndo(p) # Times(Lambda, p) \/ Times(Order, p) # N THEN Stop("eigenvalue", Lambda)
            ELSE Check(o, v, "")
       [] o.op = "Swaps" -> IF SwapsOK(o) THEN Go(v) ELSE Stop("concurrent exchange of handlers", <<>>)
       [] o.op = "Ctor" ->
            LET r == Ctor(o) IN
            IF ~WitnessOK(o) THEN Stop("harness: witness", <<>>)
            ELSE IF "err" \in DOMAIN r
            THEN IF o.tr THEN Stop("harness: trusted call with invalid input", r)
                 ELSE IF o.out # "ok" \/ o.isnil \/ Range(o.errs) \notin r.err THEN Stop("error", r)
                 ELSE IF ~o.fine \/ o.data \notin CtorData(o) THEN Stop("data of the error", CtorData(o))
                 ELSE Go(v)
            ELSE IF o.out # "ok" \/ ~o.isnil \/ ~CtorPoint(o, ValueOf(o.pt)) THEN Stop("constructed point", r)
            ELSE Go(v)
       [] o.op = "Torsion" ->         \* a point of order two is added
            LET p == v[o.x] q == CASE o.k = "A" -> A2 [] o.k = "E1" -> E1 [] o.k = "E2" -> E2 r == PAdd(p, q) IN
            IF ~CanHold(Ty[o.z], r) THEN (IF o.out = "panic" THEN Check(o, Refused(o), "other points changed") ELSE Stop("result cannot be held by the type", r))
            ELSE IF o.out # "ok" \/ ~o.has THEN Stop("panic", r)
            ELSE Check(o, [v EXCEPT ![o.z] = r], "sum with a point of order two")
       [] o.op = "Rerandomize" -> IF o.out # "ok" \/ ~o.has \/ ~Quiet(o) THEN Stop("panic", <<>>) ELSE Check(o, v, "value changed with the representation")
       [] o.op = "Flip" ->
            IF o.out # "ok" \/ o.has # IsSub(Ty[o.z]) THEN Stop("other representation", o.has)
            ELSE IF o.has /\ v[o.z] # NaP /\ ValueOf(o.raw[o.z]) # PlusA(ValueOf(o.before)) THEN Stop("other representation", PlusA(ValueOf(o.before)))
            ELSE Check(o, v, "value changed with the representation")
       [] o.op = "Sampled" ->         \* the type can hold it and it is no special point, with overwhelming probability
            LET p == ValueOf(o.raw[o.z]) r == IF IsSub(Ty[o.z]) /\ ~InSub(p) THEN PlusA(p) ELSE p IN
            IF o.out # "ok" \/ ~o.has \/ ~Quiet(o) \/ ~IsAff(p) \/ p.x = Zero \/ ~CanHold(Ty[o.z], r) THEN Stop("sampled point", p)
            ELSE IF o.n > 0 /\ v[o.z] # r THEN Stop("sample differs for the same randomness", v[o.z])
            ELSE Check(o, [v EXCEPT ![o.z] = r], "other points changed")
       [] o.op = "SampledNaP" ->
            IF o.out # "ok" \/ ~o.has \/ ~Quiet(o) THEN Stop("panic", <<>>) ELSE Check(o, [v EXCEPT ![o.z] = NaP], "sampled NaP")
       [] o.op = "Formula" ->
            LET p == v[o.x] q == v[o.y]
                r == CASE o.f = "Neg" -> PNeg(p) [] o.f = "Add" -> PAdd(p, q) [] o.f = "Sub" -> PSub(p, q)
                       [] o.f = "Double" -> PDouble(p) [] o.f = "Endo" -> PEndo(p)
                       [] o.f = "Times" -> Times(o.n, IF o.neg THEN PNeg(p) ELSE p)
                \* cases the formula need not deal with: points at infinity (also as sum and difference), and of order at most two for the endomorphism
                dual == IF o.f = "Add" THEN PSub(p, q) ELSE PAdd(p, q)
                rare == ~o.safe /\ (~IsAff(p) \/ ~IsAff(r) \/ (o.f \in {"Add", "Sub"} /\ (~IsAff(q) \/ ~IsAff(dual))) \/ (o.f = "Endo" /\ p.x = Zero)) IN
            IF ~o.kept THEN Stop("operand changed", <<>>)
            ELSE IF o.out = "ok" /\ ValueOf(o.c) = r THEN Check(o, v, "operands changed")
            ELSE IF rare THEN (IF o.out = "panic" \/ ValueOf(o.c) = NaP THEN Check(o, v, "operands changed") ELSE Stop("result of an exceptional case", r))
            ELSE Stop("result of the formula", [x |-> p, y |-> q, want |-> r, got |-> ValueOf(o.c)])
       [] o.op = "Fine" -> IF o.fine THEN Go(v) ELSE Stop("condition", o.what)
       [] OTHER -> Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
