-------------------------- MODULE SerializerModel --------------------------
(***************************************************************************)
(* Point serialization on a small curve with small bytes.                   *)
(*   "single"  every byte string of the length of one point is read in every *)
(*             format                                                        *)
(*   "multi"   a sender writes up to MaxPts points into a writer of any      *)
(*             capacity; the bytes may be cut, altered at any place or       *)
(*             followed by others; a receiver reads them in any way          *)
(*   "params"  families of serializers derived from each other               *)
(***************************************************************************)
EXTENDS Serializer

CONSTANTS Q, Mode, Fmts, MaxPts, Frames, Cells, Rich

Coords == { BInt(i) : i \in 0..(Q - 1) }
AffPts == { p \in { Aff(x, y) : x \in Coords, y \in Coords } : OnCurveXY(p.x, p.y) }
AllPts == AffPts \cup {E1, E2}
SubPts == { p \in AffPts : InSub(p) }
Byte == 0..(2^BB - 1)

(* configurations *)
Frame(c, g) == [c EXCEPT !.gh = g[1], !.gf = g[2], !.ph = g[3], !.pf = g[4], !.sh = g[5], !.sf = g[6]]
FramesNone == { <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>> }
FramesSingle == { <<<<>>, <<>>, <<>>, <<>>, h, f>> : h \in {<<>>, <<5>>}, f \in {<<>>, <<7>>} }
FramesMulti == { <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>, <<<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>>>, <<<<>>, <<2>>, <<>>, <<4>>, <<>>, <<6>>>>,
                 <<<<1>>, <<>>, <<3>>, <<>>, <<5>>, <<>>>>, <<<<1, 8>>, <<>>, <<>>, <<4, 9>>, <<5, 5>>, <<>>>> }
Variants(f) == { [Plain(f) EXCEPT !.be = b, !.sub = s] : b \in BOOLEAN, s \in IF f \in {"short", "long"} THEN {TRUE} ELSE BOOLEAN }
Configs == { Frame(c, g) : c \in UNION { Variants(f) : f \in Fmts }, g \in Frames }
FmtAll == Formats
FmtOne == {"short", "xs", "ys"}
FmtTwo == {"long", "xy"}
FmtMix == {"short", "xy"}

VARIABLES phase, c, ps, w, r, out, res, intact, fam
vars == <<phase, c, ps, w, r, out, res, intact, fam>>
NoW == [bytes |-> <<>>, cap |-> 0, late |-> FALSE]
NoR == [data |-> <<>>, pos |-> 0, end |-> "eof"]
NoOut == [add |-> <<>>, e |-> "none", pts |-> {}]
NoRes == [how |-> "", t |-> "xf", len |-> 0, xs |-> {}]
Init == phase = "config" /\ c = Plain("short") /\ ps = <<>> /\ w = NoW /\ r = NoR /\ out = NoOut /\ res = NoRes /\ intact = FALSE /\ fam = <<>>

Choose == /\ phase = "config" /\ Mode # "params"
          /\ \E x \in Configs : c' = x
          /\ phase' = IF Mode = "single" THEN "bytes" ELSE "points"
          /\ UNCHANGED <<ps, w, r, out, res, intact, fam>>

(* ---- single *)
Strings == [1..BodyLen(c) -> Byte]
Feed == /\ phase = "bytes"
        /\ \E b \in Strings : r' = [data |-> c.sh \o b \o c.sf, pos |-> 0, end |-> "eof"]
        /\ phase' = "read"
        /\ UNCHANGED <<c, ps, w, out, res, intact, fam>>
ReadOne == /\ phase = "read" /\ Mode = "single"
           /\ \E t \in {"af", "as"} : res' = [how |-> "single", t |-> t, len |-> 1, xs |-> ReadSingle(c, t, r)]
           /\ phase' = "done"
           /\ UNCHANGED <<c, ps, w, r, out, intact, fam>>

(* ---- multi *)
Interesting == { N, E1, NaP } \cup { CHOOSE p \in SubPts : p # N, CHOOSE p \in AffPts : ~InSub(p) /\ p.x # Zero }
               \cup (IF Rich THEN { A2, E2, CHOOSE p \in SubPts : p # N /\ Sign(p.y) = -1, CHOOSE p \in AffPts : ~InSub(p) /\ Chi(XNum(p.x)) = -1 } ELSE {})
AddPoint == /\ phase = "points" /\ Len(ps) < MaxPts
            /\ \E p \in Interesting : ps' = Append(ps, p)
            /\ UNCHANGED <<phase, c, w, r, out, res, intact, fam>>
Steps == CASE res.how = "single" -> Single(c, ps[1], 0)
           [] res.how = "many" -> Many(c, ps)
           [] OTHER -> Slice(c, ps)
StepsOf(how) == CASE how = "single" -> Single(c, ps[1], 0) [] how = "many" -> Many(c, ps) [] OTHER -> Slice(c, ps)
Write == /\ phase = "points"
         /\ \E how \in {"single", "many", "slice"} :
              /\ how = "single" => Len(ps) = 1
              /\ res' = [NoRes EXCEPT !.how = how]
              /\ LET s == StepsOf(how)
                     total == Len(Bytes(s))
                 IN \E cap \in {0, 1, total - 1, total, total + 1} \cup (IF Rich THEN 0..total ELSE {}), late \in BOOLEAN :
                      /\ cap >= 0
                      /\ LET ww == [bytes |-> <<>>, cap |-> cap, late |-> late]
                             x == Exec(s, ww)
                         IN out' = x /\ w' = [ww EXCEPT !.bytes = x.add]
         /\ phase' = "written"
         /\ UNCHANGED <<c, ps, r, intact, fam>>
Tamper == /\ phase = "written"
          /\ \/ /\ r' = [data |-> w.bytes \o <<0, 3>>, pos |-> 0, end |-> "eof"] /\ intact' = (Writable(Steps) /\ Len(out.add) = Len(Bytes(Steps)))
             \/ /\ out.e = "" /\ w.cap = Len(w.bytes) + 1 /\ ~w.late
                /\ \E k \in 0..Len(w.bytes), en \in {"eof", "fault"} : r' = [data |-> SubSeq(w.bytes, 1, k), pos |-> 0, end |-> en]
                /\ intact' = (Len(r'.data) = Len(w.bytes))
             \/ /\ out.e = "" /\ w.cap = Len(w.bytes) + 1 /\ ~w.late
                /\ \E k \in 1..Len(w.bytes), b \in Cells : b # w.bytes[k] /\ r' = [data |-> [w.bytes EXCEPT ![k] = b] \o <<0, 0, 0>>, pos |-> 0, end |-> "eof"]
                /\ intact' = FALSE
          /\ phase' = "read"
          /\ UNCHANGED <<c, ps, w, out, res, fam>>
Ty(t, n) == [i \in 1..n |-> t]
ReadMulti == /\ phase = "read" /\ Mode = "multi"
             /\ \E t \in {"af", "as"}, len \in (IF res.how = "single" THEN {1} ELSE {Len(ps)} \cup (IF Rich THEN {Len(ps) + 1} ELSE {})) :
                  \/ /\ res.how = "single" /\ res' = [how |-> "single", t |-> t, len |-> 1, xs |-> ReadSingle(c, t, r)]
                  \/ /\ res.how = "many" /\ \E bd \in BOOLEAN : LET xs == ReadMany(c, Ty(t, len), r) IN
                          res' = [how |-> IF bd THEN "bounded" ELSE "many", t |-> t, len |-> len, xs |-> IF bd THEN Bounded(xs) ELSE xs]
                  \/ /\ res.how = "slice" /\ \E room \in {-1, len, len - 1}, fails \in BOOLEAN :
                          /\ room >= -1
                          /\ (fails => room = -1)
                          /\ res' = [how |-> "slice", t |-> t, len |-> len, xs |-> ReadSlice(c, Ty(t, 16), room, fails, r)]
             /\ phase' = "done"
             /\ UNCHANGED <<c, ps, w, r, out, intact, fam>>

(* ---- parameters *)
Vals == { [k |-> "order", v |-> TRUE], [k |-> "order", v |-> FALSE], [k |-> "bool", v |-> TRUE], [k |-> "bool", v |-> FALSE],
          [k |-> "bith", v |-> <<1, 2>>], [k |-> "bytes", v |-> <<>>], [k |-> "bytes", v |-> <<3>>], [k |-> "text", v |-> <<3>>], [k |-> "none", v |-> 0] }
Up(s) == [i \in DOMAIN s |-> IF s[i] >= 97 /\ s[i] <= 122 /\ i % 2 = 1 THEN s[i] - 32 ELSE s[i]]
Names == { t.name : t \in Table } \cup { Up(t.name) : t \in Table } \cup { <<>>, <<97>>, <<101, 110, 100, 105, 97, 110>> }
Start == /\ Mode = "params" /\ fam = <<>> /\ \E f \in Formats : fam' = <<[c |-> Plain(f), from |-> 0, name |-> <<>>, val |-> [k |-> "none", v |-> 0]]>>
         /\ UNCHANGED <<phase, c, ps, w, r, out, res, intact>>
Derive == /\ Mode = "params" /\ Len(fam) \in 1..(MaxPts - 1)
          /\ \E i \in DOMAIN fam, n \in Names, v \in Vals :
               LET d == With(fam[i].c, n, v) IN
               /\ d # <<>>
               /\ fam' = Append(fam, [c |-> d[1], from |-> i, name |-> n, val |-> v])
          /\ UNCHANGED <<phase, c, ps, w, r, out, res, intact>>
Next == Choose \/ Feed \/ ReadOne \/ AddPoint \/ Write \/ Tamper \/ ReadMulti \/ Start \/ Derive
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
(* what is accepted is exactly what would have been written for the points read *)
ReSteps(how, got) == CASE how = "single" -> Single(c, got[1], 0) [] how \in {"many", "bounded"} -> Many(c, got) [] OTHER -> Slice(c, got)
Canonical == phase = "done" => \A x \in res.xs :
  /\ \A p \in { x.got[i] : i \in DOMAIN x.got } : p \in AffPts /\ (NeedSub(c) \/ IsSub(res.t) => InSub(p))
  /\ (x.es = Ok /\ res.how # "bounded") => /\ SubSeq(r.data, 1, x.n) = Bytes(ReSteps(res.how, x.got))
                                            /\ Writable(ReSteps(res.how, x.got))
  /\ (x.es = Ok /\ res.how = "bounded" /\ x.k = {Len(x.got)}) => SubSeq(r.data, 1, x.n) = Bytes(ReSteps("many", x.got))
(* everything written for a serializable point is accepted, and determines the point; all bytes are used *)
Encodings(S) == { Bytes(Single(c, p, 0)) : p \in S }
Writables == { p \in AllPts \cup {NaP} : Writable(Single(c, p, 0)) }
RoundTrip == (phase = "bytes") =>
  /\ Writables = IF NeedSub(c) THEN SubPts ELSE AffPts
  /\ \A p \in Writables : /\ Len(Bytes(Single(c, p, 0))) = OutLen(c)
                          /\ \A t \in {"af", "as"} : (IsSub(t) => InSub(p)) =>
                               ReadSingle(c, t, [NoR EXCEPT !.data = Bytes(Single(c, p, 0)) \o <<9>>]) = {[es |-> Ok, n |-> OutLen(c), part |-> {FALSE}, got |-> <<p>>, k |-> {1}]}
  /\ Cardinality(Encodings(Writables)) = Cardinality(Writables)
ZeroRejected == (phase = "done" /\ Mode = "single" /\ c.f \in {"short", "long"} /\ \A i \in DOMAIN r.data : r.data[i] = 0 \/ i <= Len(c.sh) \/ i > Len(r.data) - Len(c.sf)) =>
                  \A x \in res.xs : x.es # Ok
Intact == (phase = "done" /\ intact /\ Mode = "multi" /\ res.how = "slice") =>
  \A x \in res.xs : (x.es = Ok => x.got = ps) /\ (x.es # Ok => x.es \in {{{"maker"}}, {{"buffer"}}, {{"NotInSubgroup"}}, {{"XNotInSubgroup"}, {"NotInSubgroup"}}})
IntactMany == (phase = "done" /\ intact /\ Mode = "multi" /\ res.how \in {"many", "single"} /\ res.len = Len(ps)) =>
  \A x \in res.xs : (x.es = Ok => x.got = ps) /\ (x.es # Ok => x.es \in {{{"NotInSubgroup"}}, {{"XNotInSubgroup"}, {"NotInSubgroup"}}})
Errors == {"", "eof", "ueof", "fault", "header", "mismatch", "nonnorm", "size", "buffer", "maker", AnyErr, "UnexpectedNegativeZero", "XNotInSubgroup", "XNotOnCurve",
           "YNotOnCurve", "NotInSubgroup", "NotOnCurve", "WrongSignY", "CannotDeserializeNaP", "CannotDeserializeXYAllZero"}
Reading == phase = "done" => /\ res.xs # {}
  /\ \A x \in res.xs :
  /\ x.n <= Len(r.data) /\ x.part # {} /\ x.k # {}
  /\ \A S \in x.es : S \subseteq Errors
  /\ (res.how # "bounded" => ({{"eof"}} = x.es => x.n = 0))
  /\ x.k \subseteq {Len(x.got) - 1, Len(x.got)}
  /\ (x.es = Ok /\ res.how # "bounded") => x.k = {Len(x.got)}
  /\ (x.n = 0 => TRUE \notin x.part)
(* a stream that ends early is reported as such *)
CutShort == (phase = "done" /\ Mode = "multi" /\ res.how \in {"single", "slice", "many"} /\ out.e = "" /\ IsPrefix(r.data, w.bytes) /\ Len(r.data) < Len(w.bytes)) =>
  \A x \in res.xs : x.es # Ok /\ (x.es \in {{{"eof"}}, {{"ueof"}}, {{"fault"}}} => x.n = Len(r.data))
(* writing *)
Writing == (phase = "written") =>
  LET s == Steps
      all == Bytes(s)
  IN /\ Len(out.add) <= w.cap
     /\ IsPrefix(out.add, all)
     /\ ((out.e = "") => (Writable(s) /\ out.add = all))
     /\ ((out.e = "fault") => Len(out.add) = w.cap)
     /\ (Writable(s) /\ (w.cap > Len(all) \/ (w.cap = Len(all) /\ ~w.late))) => out.e = ""
     /\ ((res.how = "slice" /\ Writable(s)) => Len(all) = BToInt(SliceLen(c, BInt(Len(ps)))))
     /\ ((res.how = "many" /\ Writable(s)) => Len(all) = Len(ps) * OutLen(c))
     /\ (out.e # "" => out.pts \subseteq 0..Len(ps) /\ out.pts # {})
     /\ (out.e \in {"nap", "inf", "outside"} => \E k \in out.pts : PtErr(c, ps[k + 1]) = out.e /\ \A j \in 1..k : PtErr(c, ps[j]) = "")
Names1 == { t.name : t \in Table }
Params == \A i \in DOMAIN fam :
  /\ (IF fam[i].from = 0 THEN TRUE ELSE
      LET d == fam[i] o == fam[d.from].c key == KeyOf(o, d.name) IN
      /\ key \in KeysOf(o) /\ KeysOf(d.c) = KeysOf(o)
      /\ \A k \in KeysOf(o) : Lookup(d.c, k) = IF k = key THEN d.val.v ELSE Lookup(o, k)
      /\ d.c.f = o.f)
  /\ \A k \in KeysOf(fam[i].c) : KeyOf(fam[i].c, NameOf(k)) = k /\ With(fam[i].c, Up(NameOf(k)), fam[i].val) = With(fam[i].c, NameOf(k), fam[i].val)
  /\ (fam[i].c.f \in {"short", "long"} => fam[i].c.sub)
=============================================================================
