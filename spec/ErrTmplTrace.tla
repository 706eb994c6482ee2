----------------------------- MODULE ErrTmplTrace -----------------------------
(* Recorded chains of errors: messages and verdicts must be those ErrTmpl defines.
   focus: "msg" messages, "bad" messages and syntax verdicts, "val" all verdicts (and messages that must be clean). *)
EXTENDS ErrTmpl, TraceBase
VARIABLES e, l, E, bad
vars == <<e, l, E, bad>>

\* how fmt prints single values is recorded with the episode
TFmtVal(X, v, f) == LET q == X.ft IN q[CHOOSE i \in DOMAIN q : q[i].v = v /\ q[i].f = f].s
Fn(prs) == [x \in {prs[i][1] : i \in DOMAIN prs} |-> prs[CHOOSE i \in DOMAIN prs : prs[i][1] = x][2]]
TFmtMap(X, m, f) == LET q == X.mt IN q[CHOOSE i \in DOMAIN q : q[i].f = f /\ Fn(q[i].m) = m].s

Init == e \in 1..Len(Trace) /\ l = 1 /\ E = <<>> /\ bad = FALSE
Go(EE) == l' = l + 1 /\ E' = EE /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, E>>
Ctx == [E |-> E, ft |-> Trace[e].ft, mt |-> Trace[e].mt]

\* parameters inherited from the next error with data below
RECURSIVE Inherited(_)
Inherited(k) == IF k = 0 THEN Fn(<<>>)
                ELSE CASE E[k].kind = "ewd" -> E[k].own
                       [] E[k].kind = "wrap" -> Inherited(E[k].base)
                       [] OTHER -> Fn(<<>>)
Overlay(new, old) == [x \in DOMAIN new \cup DOMAIN old |-> IF x \in DOMAIN new THEN new[x] ELSE old[x]]
Made(o) ==
  CASE o.kind = "plain" -> [kind |-> "plain", msg |-> o.t]
    [] o.kind = "wrap"  -> [kind |-> "wrap", msg |-> o.t, base |-> o.base]
    [] o.kind = "cust"  -> [kind |-> "cust", msg |-> o.t, vb |-> o.vb, vn |-> o.vn, vp |-> o.vp]
    [] o.kind = "ewd"   ->
         \* an empty template stands for the message of the base error
         LET c  == IF o.t # <<>> THEN o.t ELSE IF Interpolates(E[o.base]) THEN <<DL, WW>> ELSE <<PC, WW>>
             tm == Template(c)
         IN [kind |-> "ewd", ns |-> tm.ns, bad |-> tm.bad, own |-> Overlay(Fn(o.own), Inherited(o.base)), base |-> o.base]

Focus == Trace[e].focus
Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE IF o.op = "err" THEN
       IF o.kind = "ewd" /\ o.t = <<>> /\ o.base = 0
       THEN IF o.out = "panic" THEN Go(E) ELSE Stop("an error without text must be refused", "panic")
       ELSE IF o.out = "ok" THEN Go(Append(E, Made(o))) ELSE Stop("creating an error panics", "ok")
     ELSE IF o.op = "ensure" THEN
       LET all(P(_)) == \A i \in DOMAIN o.ks : P(o.ks[i])
           S(k) == OkSyntax(Ctx, k)
           B(k) == OkBase(Ctx, k)
           F(k) == OkFinal(Ctx, k)
       IN IF Focus # "val" \/ (o.s = all(S) /\ o.b = all(B) /\ o.f = all(F)) THEN Go(E)
          ELSE Stop("Ensure...", [s |-> all(S), b |-> all(B), f |-> all(F)])
     ELSE \* "ask"
       LET X  == Ctx
           pa == IF o.nil THEN None ELSE Pass(Fn(o.pa))
           m  == Msg(X, o.k, pa)
           vp == OkParams(X, o.k, pa)
       IN IF o.msg # o.again THEN Stop("message changes when asked again", o.msg)
          ELSE IF Focus # "val" /\ ~Matches(m, o.msg) THEN Stop("message", m)
          ELSE IF Focus # "msg" /\ o.vs # OkSyntax(X, o.k) THEN Stop("ValidateSyntax", OkSyntax(X, o.k))
          ELSE IF Focus # "val" THEN Go(E)
          ELSE IF o.vb # OkBase(X, o.k) THEN Stop("ValidateError_Base", OkBase(X, o.k))
          ELSE IF o.vp # vp THEN Stop("ValidateError_Params", vp)
          ELSE IF o.vf # OkFinal(X, o.k) THEN Stop("ValidateError_Final", OkFinal(X, o.k))
          ELSE IF vp /\ ~Matches(m, o.msg) THEN Stop("message of an error found valid", m)
          ELSE Go(E)
Spec == Init /\ [][Step]_vars
=============================================================================
