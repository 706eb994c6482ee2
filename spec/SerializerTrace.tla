-------------------------- MODULE SerializerTrace --------------------------
(***************************************************************************)
(* Recorded histories of the real serializers must be behaviours of the     *)
(* specification: a growing family of serializers derived from each other,  *)
(* registers holding points, one writer and one reader.                     *)
(***************************************************************************)
EXTENDS Serializer, TraceBase

VARIABLES e, l, fam, v, w, r, bad
vars == <<e, l, fam, v, w, r, bad>>

Unset == Special("unset")
NoW == [bytes |-> <<>>, cap |-> 0, late |-> FALSE]
NoR == [data |-> <<>>, pos |-> 0, end |-> "eof"]
Ty == Trace[e].types
Init == e \in 1..Len(Trace) /\ l = 1 /\ fam = [i \in DOMAIN Trace[e].init |-> Plain(Trace[e].init[i])]
        /\ v = [i \in DOMAIN Trace[e].types |-> Unset] /\ w = NoW /\ r = NoR /\ bad = FALSE

Stop(what, want) == bad' = TRUE /\ Reject(e, l, what, want) /\ UNCHANGED <<e, l, fam, v, w, r>>
Go(f2, v2, w2, r2) == l' = l + 1 /\ fam' = f2 /\ v' = v2 /\ w' = w2 /\ r' = r2 /\ UNCHANGED <<e, bad>>

Wrong(raw, u) == { i \in DOMAIN u : u[i] # Unset /\ (Len(raw) < i \/ ~Stands(Ty[i], raw[i], u[i])) }
(* all registers must stand for u *)
Check(o, f2, u, w2, r2, what) ==
  LET bads == Wrong(o.raw, u) IN
  IF bads = {} THEN Go(f2, u, w2, r2)
  ELSE LET i == CHOOSE j \in bads : TRUE IN Stop(what, [register |-> i, type |-> Ty[i], value |-> u[i], got |-> ValueOf(o.raw[i])])
Regs(u, zs, got, k) == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![zs[i]] = got[i]], u, [i \in 1..k |-> i])

Errs(s) == IF s = "" THEN {} ELSE {s}
ErrIn(o, es) == IF es = {{AnyErr}} THEN o.errs # <<>> ELSE Range(o.errs) \in es

(* ---- writing *)
StepsOf(how, c, ps) == CASE how = "single" -> Single(c, ps[1], 0) [] how = "many" -> Many(c, ps) [] OTHER -> Slice(c, ps)
SerOK(o, c, steps, x) ==
  /\ o.out = "ok" /\ Range(o.errs) = Errs(x.e) /\ o.fine /\ o.n = Len(x.add) /\ o.add = x.add
  /\ x.e # "" => /\ o.dpart \in WPart(o.how, c, steps, x)
                 /\ (o.how # "single" => o.dpts \in x.pts)

(* ---- reading *)
ReadOK(o, x) == o.out = "ok" /\ ErrIn(o, x.es) /\ o.fine /\ o.n = x.n /\ (x.es # Ok => o.dpart \in x.part)
InputError(es) == es \in {Ok, {{"eof"}}, {{"ueof"}}, {{"fault"}}, {{"header"}}, {{"mismatch"}}, {{"size"}}, {{AnyErr}}, {{"maker"}}, {{"buffer"}}}
TrustOK(o, xs) == o.tr => \A x \in xs : InputError(x.es)
TypesOf(zs) == [i \in DOMAIN zs |-> Ty[zs[i]]]
After(o) == [r EXCEPT !.pos = o.pos]

BoundedCount(o, x) == o.cnt
(* outcomes x that agree with o, for a sequence of receivers *)
ManyOK(o, x, k) ==
  /\ ReadOK(o, x) /\ k \in x.k
  /\ (x.es = Ok /\ o.how # "bounded") => k = Len(o.zs)
  /\ x.es # Ok => o.dpts = k

(* slices *)
BufTypes(o) == [i \in 1..(Len(r.data) \div NB + 2) |-> o.ty]
SliceOK(o, x) ==
  /\ ReadOK(o, x)
  /\ o.told = x.told
  /\ (x.es # Ok => o.dpts \in x.k)
  /\ o.outok                                                            \* right type; what the maker returned
  /\ LET k == IF x.es = Ok THEN Len(x.got) ELSE o.dpts IN
     IF o.mk = "new" THEN x.es = Ok => (Len(o.after) = k /\ \A i \in 1..k : Stands(o.ty, o.after[i], x.got[i]))
     ELSE /\ (x.es = Ok /\ o.mk = "use" => o.outn = k)
          /\ Len(o.after) = Len(o.before)
          /\ \A i \in DOMAIN o.after : IF i <= k THEN Stands(o.ty, o.after[i], x.got[i]) ELSE o.after[i] = o.before[i]

(* ---- parameters *)
ValOf(c, key) == Lookup(c, key)
ShowOK(s, c) ==
  /\ { KeyOf(c, s.names[i]) : i \in DOMAIN s.names } = KeysOf(c)
  /\ Len(s.names) = Cardinality(KeysOf(c))
  /\ \A i \in DOMAIN s.names : s.vals[i].ok /\ s.vals[i].v = ValOf(c, KeyOf(c, s.names[i]))
  /\ s.be = c.be /\ s.sub = c.sub /\ s.len = OutLen(c)
  /\ \A i \in DOMAIN s.has : s.has[i].res = (KeyOf(c, s.has[i].name) # "")
  /\ \A i \in DOMAIN s.get : LET g == s.get[i] key == KeyOf(c, g.name) IN
        IF key = "" THEN g.out = "panic" ELSE g.out = "ok" /\ g.val.ok /\ g.val.v = ValOf(c, key)
  /\ \A i \in DOMAIN s.slen : LET q == s.slen[i] want == SliceLen(c, q.n) IN
        IF q.neg THEN q.out = "panic"
        ELSE /\ q.out = "ok"
             /\ IF Fits31(want) THEN q.nil /\ q.res = want ELSE ~q.nil /\ q.res = "-1" /\ q.fine

Step ==
  /\ ~bad /\ l <= Len(Trace[e].ev)
  /\ LET o == Trace[e].ev[l] IN
     CASE o.op = "UNEXPECTED_PANIC" -> Stop("panic", o.msg)
       [] o.op = "mk" ->
            IF ~CanHold(Ty[o.z], o.v) THEN Stop("harness: value not representable", o.v)
            ELSE Check(o, fam, [v EXCEPT ![o.z] = o.v], w, r, "object made from a point")
       [] o.op = "With" ->
            LET c == fam[o.i] d == With(c, o.name, o.val) IN
            IF d = <<>> THEN IF o.out = "panic" THEN Go(fam, v, w, r) ELSE Stop("parameter must be refused", c)
            ELSE IF o.out # "ok" \/ o.des # c.des THEN Stop("parameter must be accepted", c)
            ELSE Go(Append(fam, d[1]), v, w, r)
       [] o.op = "Copy" ->
            IF o.out # "ok" THEN Stop("copy", fam[o.i]) ELSE Go(Append(fam, [fam[o.i] EXCEPT !.des = @ \/ o.des]), v, w, r)
       [] o.op = "Show" ->
            LET bads == { i \in DOMAIN fam : ~ShowOK(o.s[i], fam[i]) } IN
            IF bads # {} THEN LET i == CHOOSE j \in bads : TRUE IN Stop("parameters", [serializer |-> i, want |-> fam[i]])
            ELSE Go(fam, v, w, r)
       [] o.op = "Trim" -> Go(SubSeq(fam, 1, o.n), v, w, r)
       [] o.op = "Writer" -> Go(fam, v, [bytes |-> <<>>, cap |-> o.cap, late |-> o.late], r)
       [] o.op = "Reader" -> Go(fam, v, w, [data |-> o.data, pos |-> 0, end |-> o.end])
       [] o.op = "Reread" -> Go(fam, v, w, [data |-> w.bytes, pos |-> 0, end |-> "eof"])
       [] o.op = "Ser" ->
            LET c == fam[o.i] steps == StepsOf(o.how, c, [j \in DOMAIN o.xs |-> v[o.xs[j]]]) x == Exec(steps, w) IN
            IF SerOK(o, c, steps, x) THEN Check(o, fam, v, [w EXCEPT !.bytes = @ \o x.add], r, "serialization changed a point")
            ELSE Stop("serialization", [x |-> x, part |-> WPart(o.how, c, steps, x)])
       [] o.op = "De" ->
            LET c == fam[o.i] xs == ReadSingle(c, Ty[o.z], r)
                good == { x \in xs : ReadOK(o, x) /\ o.pos = r.pos + x.n }
                news == UNION { { IF k = 1 THEN [v EXCEPT ![o.z] = x.got[1]] ELSE v : k \in x.k } : x \in good } IN
            IF ~TrustOK(o, xs) THEN Stop("harness: trusted invalid input", xs)
            ELSE IF good = {} THEN Stop("deserialization", xs)
            ELSE IF \E u \in news : Wrong(o.raw, u) = {} THEN Go(fam, CHOOSE u \in news : Wrong(o.raw, u) = {}, w, After(o))
            ELSE Stop("registers after deserialization", xs)
       [] o.op = "DeMany" ->
            LET c == fam[o.i] all == ReadMany(c, TypesOf(o.zs), r) xs == IF o.how = "bounded" THEN Bounded(all) ELSE all
                k == IF o.how = "bounded" THEN o.cnt ELSE IF o.errs = <<>> THEN Len(o.zs) ELSE o.dpts
                good == { x \in xs : ManyOK(o, x, k) /\ o.pos = r.pos + x.n } IN
            IF ~TrustOK(o, xs) THEN Stop("harness: trusted invalid input", xs)
            ELSE IF good = {} THEN Stop("batch deserialization", xs)
            ELSE IF \E x \in good : Wrong(o.raw, Regs(v, o.zs, x.got, k)) = {}
            THEN LET x == CHOOSE x \in good : Wrong(o.raw, Regs(v, o.zs, x.got, k)) = {} IN Go(fam, Regs(v, o.zs, x.got, k), w, After(o))
            ELSE Stop("registers after batch deserialization", xs)
       [] o.op = "DeSlice" ->
            LET c == fam[o.i] xs == ReadSlice(c, BufTypes(o), IF o.mk = "use" THEN Len(o.before) ELSE -1, o.mk = "fail", r) IN
            IF ~TrustOK(o, xs) THEN Stop("harness: trusted invalid input", xs)
            ELSE IF \E x \in xs : SliceOK(o, x) /\ o.pos = r.pos + x.n THEN Check(o, fam, v, w, After(o), "registers after slice deserialization")
            ELSE Stop("slice deserialization", xs)
       [] o.op = "Huge" ->       \* a sequence of o.len points that cannot be looked at
            LET c == fam[o.i] many == BMul(o.len, BInt(OutLen(c))) IN
            IF o.how # "slice"
            THEN IF Fits31(many) THEN Stop("harness: length", many)
                 ELSE IF o.out = "panic" /\ o.add = <<>> THEN Go(fam, v, w, r) ELSE Stop("too many points must be refused", many)
            ELSE IF Fits31(SliceLen(c, o.len)) THEN Stop("harness: length", many)
            ELSE IF ~Fits31(o.len) THEN IF o.out = "panic" THEN Go(fam, v, w, r) ELSE Stop("too many points must be refused", many)
            ELSE IF o.out = "ok" /\ o.errs = <<"size">> /\ o.n = 0 /\ o.add = <<>> /\ o.dpart = FALSE /\ o.dpts = 0 /\ o.fine THEN Go(fam, v, w, r)
            ELSE Stop("too many points must be refused", many)
       [] o.op = "PSer" ->       \* stateless: one point written
            LET c == fam[o.i] steps == Single(c, o.v, 0) x == Exec(steps, [NoW EXCEPT !.cap = 1000000]) IN
            IF Range(o.errs) = Errs(x.e) /\ o.add = x.add /\ o.n = Len(x.add) THEN Go(fam, v, w, r) ELSE Stop("serialization", x)
       [] o.op = "PDe" ->        \* stateless: one point read
            LET xs == ReadSingle(fam[o.i], o.ty, [NoR EXCEPT !.data = o.data]) IN
            IF \E x \in xs : ReadOK(o, x) /\ (x.es = Ok => Stands(o.ty, o.pt, x.got[1])) THEN Go(fam, v, w, r) ELSE Stop("deserialization", xs)
       [] OTHER -> Stop("unknown operation", "")
Spec == Init /\ [][Step]_vars
=============================================================================
