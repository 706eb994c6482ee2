----------------------------- MODULE ErrDataTrace -----------------------------
(* Recorded histories of creating, converting and asking errors: everything observed must be what ErrData defines. *)
EXTENDS ErrData, TraceBase
VARIABLES e, l, E, MH, bad
vars == <<e, l, E, MH, bad>>

Init == e \in 1..Len(Trace) /\ l = 1 /\ E = <<>> /\ MH = <<>> /\ bad = FALSE
Go(EE, mh) == l' = l + 1 /\ E' = EE /\ MH' = mh /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, E, MH>>

Pool == Trace[e].pool
Zero == Trace[e].zero
Shape(t) == Trace[e].types[t]
SvFn(s) == [p \in {s[i].p : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].p = p].v]
SameErr(EE, a, b) == a = b \/ (a > 0 /\ b > 0 /\ EE[a].kind = EE[b].kind /\ Identical(EE, a, b))

----------------------------------------------------------------------------
(* observation of all errors *)
Opaque(t) == \E i \in DOMAIN t : t[i] = -1
ObsBad(EE, mh, obs) ==
  LET wrong(i) == LET x == obs[i] IN
        \/ Fn(x.d) # Data(EE, x.k)
        \/ ~Opaque(EE[x.k].tok) /\ x.tok # EE[x.k].tok
        \/ x.k <= Len(mh) /\ x.mh # mh[x.k]
  IN IF \E i \in DOMAIN obs : wrong(i) THEN CHOOSE i \in DOMAIN obs : wrong(i) ELSE 0
NewMH(mh, obs) == [k \in 1..Len(obs) |-> IF k <= Len(mh) THEN mh[k] ELSE obs[k].mh]
Observe(EE, obs) ==
  IF Len(obs) # Len(EE) THEN Stop("number of errors", Len(EE))
  ELSE LET w == ObsBad(EE, MH, obs) IN
       IF w # 0 THEN Stop("data or message of an error", [k |-> w, d |-> [x \in DOMAIN Data(EE, w) |-> Data(EE, w)[x]], tok |-> EE[w].tok])
       ELSE Go(EE, NewMH(MH, obs))

----------------------------------------------------------------------------
(* UnexpectEOF *)
EofOf(o) == Eof(E, o.base, o.eof, o.unexp, o.how = "eof2", o.T)

StepMk(o) ==
  IF o.how \in {"eof", "eof2"} /\ (o.eof = 0 \/ o.unexp = 0)
  THEN IF o.base = 0 THEN (IF o.out = "nil" THEN Observe(E, o.obs) ELSE Stop("UnexpectEOF", "nil"))
       ELSE IF SameErr(E, o.same, o.base) THEN Observe(E, o.obs) ELSE Stop("UnexpectEOF", "unchanged")
  ELSE IF o.how \in {"eof", "eof2"} THEN
    LET r == EofOf(o) IN
    IF r.out = "same" THEN
      IF r.k = 0 THEN (IF o.out = "nil" THEN Observe(E, o.obs) ELSE Stop("UnexpectEOF", "nil"))
      ELSE IF o.out = "ok" /\ SameErr(E, o.same, r.k) THEN Observe(E, o.obs) ELSE Stop("UnexpectEOF", r.k)
    ELSE IF o.out # "ok" \/ o.same # 0 \/ o.unw # o.unexp THEN Stop("UnexpectEOF", "a new error above io.ErrUnexpectedEOF")
    ELSE Observe(Append(E, r.e), o.obs)
  ELSE
    LET oo == [o EXCEPT !.sv = SvFn(o.sv)] @@ [sh |-> Shape(o.T), skip |-> o.how = "as" /\ o.base # 0 /\ IsEwd(E, Unbox(E, o.base)) /\ o.unw # Unbox(E, o.base)]
        r  == IF o.how = "plain" /\ o.cls = -1 THEN Result("ok", Err("plain", <<>>, Empty, "", 0, <<-1>>)) ELSE Apply(Pool, Zero, E, oo)
    IN IF o.out # r.out THEN Stop("outcome", r.out)
       ELSE IF r.out # "ok" THEN Observe(E, o.obs)
       ELSE LET EE == Append(E, r.e)
                b  == Below1(EE, Len(EE))
            IN IF o.same # 0 /\ ~(r.e.kind \in {"val", "inc"} /\ SameErr(EE, o.same, Len(EE))) THEN Stop("a new error", o.same)
               ELSE IF ~SameErr(EE, o.unw, b) THEN Stop("Unwrap", b)
               ELSE Observe(EE, o.obs)

----------------------------------------------------------------------------
(* questions *)
StructIs(r, m, sh, miss) ==
  IF Suitable(sh) /\ CanMake(Pool, m, sh, miss) THEN r.out = "ok" /\ SvFn(r.v) = Struct(Pool, Zero, m, sh) ELSE r.out = "panic"
\* errors are identified by number, up to indistinguishable ones
FoundIs(n, k) == SameErr(E, n, k)
StepAsk(o) ==
  LET k  == o.k
      m  == Data(E, k)
      sh == Shape(o.T)
      par(x, h, p, v) == /\ h = (x.n \in DOMAIN m) /\ p = h
                         /\ v = IF x.n \in DOMAIN m THEN m[x.n] ELSE 1
      isany(j) == IsEwd(E, j)
      ist(j) == Typed(E, j, o.T)
      isval(j) == E[j].kind = "val"
      is == { t \in 1..Len(E) : Is(E, k, t) } \cup (IF k = 0 THEN {0} ELSE {})
  IN IF Fn(o.d) # m \/ Fn(o.d2) # m THEN Stop("GetData_map", [x \in DOMAIN m |-> m[x]])
     ELSE IF \E i \in DOMAIN o.get : LET x == o.get[i] IN ~par(x, x.h, x.p, x.v) \/ (x.m /\ ~par(x, x.h2, x.p2, x.v2)) THEN Stop("parameters", [x \in DOMAIN m |-> m[x]])
     ELSE IF o.hd # (IF ~Suitable(sh) THEN "panic" ELSE IF CanMake(Pool, m, sh, "ensure") THEN "true" ELSE "false") THEN Stop("HasData", CanMake(Pool, m, sh, "ensure"))
     ELSE IF ~StructIs(o.zero, m, sh, "zero") THEN Stop("GetData_struct (missing as zero)", [x \in DOMAIN m |-> m[x]])
     ELSE IF ~StructIs(o.ensure, m, sh, "ensure") THEN Stop("GetData_struct (all present)", [x \in DOMAIN m |-> m[x]])
     ELSE IF ~(IF Typed(E, k, o.T) THEN o.meth.out = "ok" /\ SvFn(o.meth.v) = Struct(Pool, Zero, m, sh) ELSE o.meth.out = "none") THEN Stop("method GetData_struct", Typed(E, k, o.T))
     ELSE IF Range(o.is) # is THEN Stop("Is", is)
     ELSE IF ~FoundIs(o.find, First(E, k, ist)) THEN Stop("As ErrorWithData[T]", First(E, k, ist))
     ELSE IF ~FoundIs(o.findany, First(E, k, isany)) THEN Stop("As ErrorWithData_any", First(E, k, isany))
     ELSE IF ~FoundIs(o.findval, First(E, k, isval)) THEN Stop("As value error", First(E, k, isval))
     ELSE IF ~SameErr(E, o.unw, Below1(E, k)) THEN Stop("Unwrap", Below1(E, k))
     ELSE IF ~SameErr(E, o.unbox, Unbox(E, k)) THEN Stop("UnboxError", Unbox(E, k))
     ELSE IF o.unbox2 # -2 /\ ~SameErr(E, o.unbox2, Unbox(E, k)) THEN Stop("UnboxError (typed)", Unbox(E, k))
     ELSE Go(E, MH)

VisibleNames(sh) == { f.name : f \in Visible(sh) }
NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
StepShape(o) ==
  LET sh == Shape(o.T)
      ok == Suitable(sh)
  IN IF o.suit # ok THEN Stop("StructSuitableForErrorsWithData", ok)
     ELSE IF o.all # (ok /\ NoDup(o.names) /\ Range(o.names) = VisibleNames(sh)) THEN Stop("CheckParametersForStruct_all", VisibleNames(sh))
     ELSE IF o.one # (ok /\ o.name \in VisibleNames(sh)) THEN Stop("CheckParameterForStruct", VisibleNames(sh))
     ELSE IF \E i \in DOMAIN o.subs : LET u == Shape(o.subs[i].U) IN
               \* an unsuitable second type is only noticed when there is a field to look for
               /\ o.subs[i].ok # (ok /\ Suitable(u) /\ VisibleNames(sh) \subseteq VisibleNames(u))
               /\ ~(ok /\ ~Suitable(u) /\ sh = <<>>)
          THEN Stop("CheckIsSubtype", VisibleNames(sh))
     ELSE Go(E, MH)

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     CASE o.op = "mk" -> StepMk(o)
       [] o.op = "ask" -> StepAsk(o)
       [] o.op = "mutate" -> Observe(E, o.obs)
       [] o.op = "shape" -> StepShape(o)
       [] OTHER -> Stop("panic", o.msg)
Spec == Init /\ [][Step]_vars
=============================================================================
