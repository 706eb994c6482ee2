---------------------------- MODULE HelpersTrace ----------------------------
(* Recorded helper calls.  Expect(o) is the outcome ("ok" / "panic") and the result the definition demands. *)
EXTENDS Helpers, TraceBase
VARIABLES e, l, bad
vars == <<e, l, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE
Go == l' = l + 1 /\ UNCHANGED <<e, bad>>
Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l>>

Ok(r) == [out |-> "ok", res |-> r]
Panics == [out |-> "panic", res |-> 0]
Fun(o) == IF o.nf = 0 THEN "none" ELSE o.f

Expect(o) ==
  CASE o.op = "CompareSlices" -> Ok(SlicesEqual(o.x, o.y))
    [] o.op = "AssertSliceEquals" -> IF o.x.nil \/ o.x.v # o.y.v THEN Panics ELSE Ok(TRUE)
    [] o.op \in {"CompareMaps", "CompareParamMaps"} -> Ok(MapsEqual(o.x, o.y))
    [] o.op = "ElementInList" -> IF o.nf > 1 THEN Panics ELSE Ok(InList(Fun(o), o.a, o.x))
    [] o.op = "Concat" -> IF o.nf > 1 THEN Panics ELSE Ok(Dedup(Fun(o), o.x \o o.y))
    [] o.op = "Alias" -> Ok(Aliased(o.x, o.y))
    [] o.op = "FromWords" -> Ok(FromWords(o.x))
    [] o.op = "ToWords" -> IF FitsWords(o.x) THEN Ok(ToWords(o.x)) ELSE Panics
    [] o.op = "SameInt" -> Ok(o.x = o.y)
    [] o.op = "IntString" -> IF WellFormed(o.x) THEN Ok(ValueOf(o.x)) ELSE Panics
    [] o.op = "AllFields" -> IF o.kind = "struct" THEN Ok([fields |-> Flatten(o.x, <<>>), ptr |-> HasPtr(o.x)]) ELSE Panics
    [] o.op \in {"TypeName", "NameOfType"} -> Ok(TypeName(o.x))
    [] o.op \in {"Nilable", "TypeNilable"} -> Ok(Nilable(o.x))
    [] o.op = "Method" -> Ok(MethodFits(o.x, o.name, o.ins, o.outs))
    [] o.op = "Assert" -> IF o.nf > 1 THEN [out |-> "panic", res |-> "usage"]
                          ELSE IF o.a THEN Ok("none") ELSE [out |-> "panic", res |-> IF o.nf = 1 THEN "given" ELSE "default"]
    \* running a function that may panic: the value is passed on unless it comes from package reflect
    [] o.op = "CheckPanic" ->
         IF o.misuse THEN Panics
         ELSE IF o.kind \in {"string", "error", "stringer"} /\ o.reflect THEN Panics
         ELSE Ok([did |-> o.kind # "none", val |-> o.kind, seen |-> o.args])
    \* nil arguments become the zero value of the parameter type where that is nil
    [] o.op = "FixNil" ->
         IF o.notfun \/ \E i \in DOMAIN o.args : o.args[i] = "nil" /\ ~Nilable([k |-> o.params[i]]) THEN Panics
         ELSE Ok(o.args)
    \* data attached to errors of I/O operations: partial means that some, but not all bytes were transferred
    [] o.op = "ReadData" -> Ok([partial |-> 0 < o.n /\ o.n < o.want, n |-> o.n, buf |-> o.buf, io |-> TRUE])
    [] o.op = "WriteData" -> Ok([partial |-> 0 < o.n /\ o.n < o.want, n |-> o.n, io |-> TRUE])
    [] o.op = "NoAttempt" -> Ok(FALSE)
    [] o.op = "CallMethod" -> IF o.missing \/ o.variadic THEN Panics ELSE Ok(o.x)
    [] o.op = "Clone" -> IF o.missing THEN Panics ELSE Ok([same |-> TRUE, distinct |-> TRUE])
    [] o.op \in {"Bind", "AddressOfCopy", "Identity"} -> Ok(o.x)
    [] OTHER -> [out |-> "unknown operation", res |-> 0]

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     IF o.op = "UNEXPECTED_PANIC" THEN Stop("panic", o.msg)
     ELSE LET w == Expect(o) IN
          IF o.out = w.out /\ o.res = w.res /\ o.kept THEN Go
          ELSE Stop(IF o.kept THEN "result" ELSE "an input was modified", w)
Spec == Init /\ [][Step]_vars
=============================================================================
