---------------------------- MODULE Serializer ----------------------------
(***************************************************************************)
(* Serialization of curve points: what is written for a point, a sequence  *)
(* of points or a self-describing slice; what reading a byte stream may do; *)
(* and the parameters of serializers.                                       *)
(*                                                                         *)
(* A serializer is an immutable record                                      *)
(*   f   format: "short" (x*sign(y)), "long" (y*sign(y), x*sign(y)),         *)
(*       "xy", "xs" (x and the sign of y), "ys" (y and the sign of x)        *)
(*   be  most significant byte first?                                        *)
(*   h1, h2  bit headers <<bits, length>> put on top of the coordinates      *)
(*   sub restricted to the subgroup?                                         *)
(*   gh, gf, ph, pf, sh, sf  byte strings around a slice, around each point  *)
(*       of a slice and around a point on its own                           *)
(*   des TRUE for one that can only read                                     *)
(*                                                                         *)
(* A number takes NB bytes of BB bits, the length of a slice LB bytes, least *)
(* significant byte first.                                                  *)
(***************************************************************************)
EXTENDS Curve, SequencesExt

CONSTANTS NB, BB, LB,
          MaxInt,     \* largest slice length and largest number of bytes of one object
          MaxPre      \* longest bit header

F == INSTANCE FeSer WITH Mod <- P

Formats == {"short", "long", "xy", "xs", "ys"}
NoHdr == <<0, 0>>
Plain(f) == [f |-> f, be |-> FALSE, h1 |-> IF f = "short" THEN <<1, 1>> ELSE IF f = "long" THEN <<0, 2>> ELSE NoHdr,
             h2 |-> IF f = "long" THEN <<1, 1>> ELSE NoHdr, sub |-> f \in {"short", "long"},
             gh |-> <<>>, gf |-> <<>>, ph |-> <<>>, pf |-> <<>>, sh |-> <<>>, sf |-> <<>>, des |-> FALSE]

NeedSub(c) == c.sub
Coo(c) == IF c.f \in {"long", "xy"} THEN 2 ELSE 1          \* number of coordinates
BodyLen(c) == NB * Coo(c)
OutLen(c) == Len(c.sh) + BodyLen(c) + Len(c.sf)
PerPoint(c) == Len(c.ph) + BodyLen(c) + Len(c.pf)
SliceLen(c, n) == BAdd(BMul(n, BInt(PerPoint(c))), BInt(LB + Len(c.gh) + Len(c.gf)))     \* n and the result are big numbers
Fits31(n) == BLe(n, MaxInt)

(***************************************************************************)
(* Writing.                                                                 *)
(***************************************************************************)
Times1(v, s) == IF Sign(s) = -1 THEN Neg1(v) ELSE v
Bit(b) == IF b THEN <<1, 1>> ELSE <<0, 1>>
(* coordinates to be written, each with its bit header *)
Parts(c, p) ==
  CASE c.f = "short" -> <<<<Times1(p.x, p.y), c.h1>>>>
    [] c.f = "long"  -> <<<<Times1(p.y, p.y), c.h1>>, <<Times1(p.x, p.y), c.h2>>>>
    [] c.f = "xy"    -> <<<<p.x, c.h1>>, <<p.y, c.h2>>>>
    [] c.f = "xs"    -> <<<<p.x, Bit(Sign(p.y) = -1)>>>>
    [] c.f = "ys"    -> <<<<p.y, Bit(Sign(p.x) = -1)>>>>
PtErr(c, p) == IF p = NaP THEN "nap" ELSE IF IsInf(p) THEN "inf" ELSE IF NeedSub(c) /\ ~InSub(p) THEN "outside" ELSE ""

Put(b, pts) == [b |-> b, e |-> "", pts |-> {pts}]
Refuse(e, pts) == [b |-> <<>>, e |-> e, pts |-> {pts}]
PartStep(c, q, pts) == IF F!Fits(q[1], q[2][2]) THEN Put(F!Image(F!WithPrefix(q[1], q[2][1], q[2][2]), c.be), pts) ELSE Refuse("fit", pts)
PointSteps(c, p, pts) ==
  LET e == PtErr(c, p) IN
  IF e # "" THEN <<Refuse(e, pts)>>
  ELSE LET q == Parts(c, p) IN [i \in 1..Len(q) |-> PartStep(c, q[i], pts)]
Cat(ss) == FlattenSeq(ss)
LenBytes(n) == [i \in 1..LB |-> BToInt(BMod(BShr(n, BB * (i - 1)), BShl(One, BB)))]
Single(c, p, pts) == <<Put(c.sh, pts)>> \o PointSteps(c, p, pts) \o <<Put(c.sf, pts)>>
Many(c, ps) == Cat([i \in 1..Len(ps) |-> Single(c, ps[i], i - 1)])
Slice(c, ps) ==
  IF ~Fits31(SliceLen(c, BInt(Len(ps)))) THEN <<Refuse("size", 0)>> ELSE
  <<Put(c.gh, 0), Put(LenBytes(BInt(Len(ps))), 0)>>
  \o Cat([i \in 1..Len(ps) |-> <<Put(c.ph, i - 1)>> \o PointSteps(c, ps[i], i - 1) \o <<Put(c.pf, i)>>])
  \o <<Put(c.gf, Len(ps))>>

Writable(steps) == \A i \in DOMAIN steps : steps[i].e = ""
Bytes(steps) == Cat([i \in 1..Len(steps) |-> steps[i].b])

(* A writer [bytes, cap, late] takes cap bytes in all; the write that goes beyond fails, and so does, if late, the one that
   reaches cap exactly.  The result: bytes added, error, how many points count as written. *)
RECURSIVE Run(_, _, _, _)
Run(steps, i, w, add) ==
  IF i > Len(steps) THEN [add |-> add, e |-> "", pts |-> {}]
  ELSE LET s == steps[i]
           room == w.cap - Len(w.bytes) - Len(add)
       IN IF s.e # "" THEN [add |-> add, e |-> s.e, pts |-> s.pts]
          ELSE IF Len(s.b) = 0 THEN Run(steps, i + 1, w, add)
          ELSE IF Len(s.b) > room THEN [add |-> add \o SubSeq(s.b, 1, room), e |-> "fault", pts |-> s.pts]
          ELSE IF w.late /\ Len(s.b) = room
          THEN [add |-> add \o s.b, e |-> "fault", pts |-> UNION { steps[j].pts : j \in {i, IF i < Len(steps) THEN i + 1 ELSE i} }]
          ELSE Run(steps, i + 1, w, add \o s.b)
Exec(steps, w) == Run(steps, 1, w, <<>>)
(* allowed values of the partial-write flag after an error *)
WPart(mode, c, steps, x) ==
  LET n == Len(x.add) IN
  CASE mode = "single" -> {n > 0 /\ n < OutLen(c)}
    [] mode = "many"   -> {n % OutLen(c) # 0}
    [] OTHER           -> IF n = Len(Bytes(steps)) /\ Writable(steps) THEN BOOLEAN ELSE {n > 0}

(***************************************************************************)
(* Reading.  A reader r = [data, pos, end] delivers data, then ends with     *)
(* "eof" or "fault".  Outcomes are records                                  *)
(*   es   allowed sets of errors ({{}}: success)                             *)
(*   n    bytes consumed       part  allowed values of the partial-read flag *)
(*   got  the points read      k    allowed numbers of points reported as    *)
(*        read and stored (a subset of {Len(got) - 1, Len(got)})             *)
(***************************************************************************)
Ok == {{}}
ErrSet(x, n) == {{IF x = "eof" /\ n > 0 THEN "ueof" ELSE x}}
Skip(r, n) == [r EXCEPT !.pos = @ + n]
ShortErr(r) == IF r.end = "fault" THEN "fault" ELSE IF F!Avail(r) = 0 THEN "eof" ELSE "ueof"
(* an expected byte string *)
Hdr(h, r) == IF Len(h) = 0 THEN [e |-> "", n |-> 0]
             ELSE IF F!Avail(r) < Len(h) THEN [e |-> ShortErr(r), n |-> F!Avail(r)]
             ELSE [e |-> IF SubSeq(r.data, r.pos + 1, r.pos + Len(h)) = h THEN "" ELSE "header", n |-> Len(h)]

OneCoo(c, i, r) ==
  IF c.f \in {"xs", "ys"} THEN F!GetOutcomes(r, 1, c.be, "f")
  ELSE LET h == IF i = 1 THEN c.h1 ELSE c.h2 IN F!ExpOutcomes(r, h[1], h[2], c.be, "f")
(* the coordinates: set of [e, n, c |-> sequence of [v, pre]] *)
ReadCoos(c, r) ==
  LET first == OneCoo(c, 1, r) IN
  UNION { IF a.err # "" \/ Coo(c) = 1 THEN {[e |-> a.err, n |-> a.n, c |-> <<a>>]}
          ELSE { [e |-> b.err, n |-> a.n + b.n, c |-> <<a, b>>] : b \in OneCoo(c, 2, Skip(r, a.n)) } : a \in first }

RootOr(v) == LET s == BSqrtMod(v, P) IN IF s = "" THEN Zero ELSE s
YFor(x) == RootOr(Mul2(XNum(x), Inv1(XDen(x))))            \* 1 - d x^2 is never zero
XFor(y) == IF YDen(y) = Zero THEN Zero ELSE RootOr(Mul2(YNum(y), Inv1(YDen(y))))
(* what coordinates mean to a receiver of type t: Err(sets) or [v |-> point] *)
Content(c, t, q) ==
  LET sub == NeedSub(c) \/ IsSub(t)
      a == q[1].v
  IN CASE c.f = "short" ->
            LET r == Ctor([f |-> "XTimesSignY_subgroup", a |-> a])
                p0 == Aff(a, WithSign(YFor(a), 1))
            IN IF "err" \in DOMAIN r THEN r ELSE [v |-> IF InSub(p0) THEN p0 ELSE PlusA(p0)]
       [] c.f = "long" -> Ctor([f |-> "XYTimesSignY_subgroup", a |-> q[2].v, b |-> a])
       [] c.f = "xy" -> Ctor([f |-> IF sub THEN "XYAffine_subgroup" ELSE "XYAffine_full", a |-> a, b |-> q[2].v])
       [] c.f = "xs" -> Ctor([f |-> IF sub THEN "XAndSignY_subgroup" ELSE "XAndSignY_full", a |-> a, s |-> IF q[1].pre = 1 THEN -1 ELSE 1, wit |-> YFor(a)])
       [] c.f = "ys" ->
            LET r == Ctor([f |-> IF sub THEN "YAndSignX_subgroup" ELSE "YAndSignX_full", a |-> a, s |-> IF q[1].pre = 1 THEN -1 ELSE 1, wit |-> XFor(a)])
            IN IF "v" \in DOMAIN r /\ r.v.x = Zero /\ q[1].pre = 1 THEN Err({{"UnexpectedNegativeZero"}}) ELSE r

(* the bare point: set of [es, n, v |-> <<>> or <<point>>] *)
ReadBody(c, t, r) ==
  { IF a.e # "" THEN [es |-> {{a.e}}, n |-> a.n, v |-> <<>>]
    ELSE LET x == Content(c, t, a.c) IN
         IF "err" \in DOMAIN x THEN [es |-> x.err, n |-> a.n, v |-> <<>>] ELSE [es |-> Ok, n |-> a.n, v |-> <<x.v>>] : a \in ReadCoos(c, r) }

Unexpect(es, n) == { { IF x = "eof" /\ n > 0 THEN "ueof" ELSE x : x \in S } : S \in es }

(* one point enclosed in h and f: set of [es, n, v, k]; k: allowed numbers of points stored *)
Enclosed(c, t, h, f, r) ==
  LET a == Hdr(h, r) IN
  IF a.e # "" THEN {[es |-> {{a.e}}, n |-> a.n, v |-> <<>>, k |-> {0}]}
  ELSE { IF b.es # Ok THEN [es |-> Unexpect(b.es, a.n + b.n), n |-> a.n + b.n, v |-> <<>>, k |-> {0}]
         ELSE LET z == Hdr(f, Skip(r, a.n + b.n))
                  n == a.n + b.n + z.n
              IN IF z.e # "" THEN [es |-> Unexpect({{z.e}}, n), n |-> n, v |-> b.v, k |-> {0, 1}]
                 ELSE [es |-> Ok, n |-> n, v |-> b.v, k |-> {1}]
         : b \in ReadBody(c, t, Skip(r, a.n)) }

ReadSingle(c, t, r) ==
  { [es |-> x.es, n |-> x.n, part |-> {x.n > 0 /\ x.n < OutLen(c)}, got |-> x.v, k |-> x.k] : x \in Enclosed(c, t, c.sh, c.sf, r) }

(* the points ty[i], ... of a sequence; ty gives the types of the receivers *)
RECURSIVE ReadFrom(_, _, _, _, _, _)
ReadFrom(c, ty, i, r, n, got) ==
  IF i > Len(ty) THEN {[es |-> Ok, n |-> n, part |-> {FALSE}, got |-> got, k |-> {Len(ty)}]}
  ELSE UNION { IF x.es = Ok THEN ReadFrom(c, ty, i + 1, Skip(r, x.n), n + x.n, got \o x.v)
               ELSE {[es |-> Unexpect(x.es, n + x.n), n |-> n + x.n, part |-> {(n + x.n) % OutLen(c) # 0}, got |-> got \o x.v,
                      k |-> { i - 1 + j : j \in x.k }]}
               : x \in Enclosed(c, ty[i], c.sh, c.sf, r) }
ReadMany(c, ty, r) == ReadFrom(c, ty, 1, r, 0, <<>>)

(* a self-describing slice.  The maker is asked once for room for as many points as announced, or told -1 *)
AnyErr == "any error"
Told(n) == <<n>>
NoRoom(es, n, part, told) == {[es |-> es, n |-> n, part |-> part, got |-> <<>>, k |-> {0}, told |-> told]}
RECURSIVE SliceFrom(_, _, _, _, _, _, _)
SliceFrom(c, ty, size, i, r, n, got) ==
  LET total == BToInt(SliceLen(c, BInt(size))) IN
  IF i > size
  THEN LET z == Hdr(c.gf, r) IN
       {[es |-> IF z.e = "" THEN Ok ELSE Unexpect({{z.e}}, n + z.n), n |-> n + z.n, part |-> {n + z.n < total}, got |-> got, k |-> {size}]}
  ELSE UNION { IF x.es = Ok THEN SliceFrom(c, ty, size, i + 1, Skip(r, x.n), n + x.n, got \o x.v)
               ELSE {[es |-> Unexpect(x.es, n + x.n), n |-> n + x.n, part |-> IF x.k = {0, 1} /\ n + x.n = total THEN BOOLEAN ELSE {n + x.n < total},
                      got |-> got \o x.v, k |-> { i - 1 + j : j \in x.k }]}
               : x \in Enclosed(c, ty[i], c.ph, c.pf, r) }
LenOf(r) == FoldRight(LAMBDA b, acc : BAdd(BShl(acc, BB), BInt(b)), SubSeq(r.data, r.pos + 1, r.pos + LB), Zero)
(* room: how many points the maker can provide for (-1: any number); fails: it refuses; ty: types of the receivers *)
ReadSlice(c, ty, room, fails, r) ==
  LET a == Hdr(c.gh, r)
      r1 == Skip(r, a.n)
  IN IF a.e # "" THEN NoRoom({{a.e}}, a.n, {a.n # 0}, Told("-1"))
     ELSE IF F!Avail(r1) < LB THEN LET n == a.n + F!Avail(r1) IN NoRoom(ErrSet(ShortErr(r1), n), n, {n # 0}, Told("-1"))
     ELSE LET size == LenOf(r1)
              n == a.n + LB
          IN IF ~Fits31(size) THEN NoRoom({{"size"}}, n, {TRUE}, Told("-1"))
             ELSE IF ~Fits31(SliceLen(c, size)) THEN NoRoom({{AnyErr}}, n, {TRUE}, Told("-1"))
             ELSE IF fails THEN NoRoom({{"maker"}}, n, {TRUE}, Told(size))
             ELSE IF room >= 0 /\ BLt(BInt(room), size) THEN NoRoom({{"buffer"}}, n, BOOLEAN, Told(size))
             ELSE { x @@ [told |-> Told(size)] : x \in SliceFrom(c, ty, BToInt(size), 1, Skip(r1, LB), n, <<>>) }

(* reading at most as many points as there is room for: the end of the stream between points is no error *)
Bounded(xs) == { IF x.es \in {{{"eof"}}, {{"ueof"}}} /\ x.part = {FALSE} THEN [x EXCEPT !.es = Ok] ELSE x : x \in xs }

(***************************************************************************)
(* Parameters.                                                              *)
(***************************************************************************)
Table == {
  [key |-> "endian", name |-> <<101, 110, 100, 105, 97, 110, 110, 101, 115, 115>>],
  [key |-> "h1", name |-> <<98, 105, 116, 104, 101, 97, 100, 101, 114>>],
  [key |-> "h2", name |-> <<98, 105, 116, 104, 101, 97, 100, 101, 114, 50>>],
  [key |-> "sub", name |-> <<115, 117, 98, 103, 114, 111, 117, 112, 111, 110, 108, 121>>],
  [key |-> "gh", name |-> <<103, 108, 111, 98, 97, 108, 115, 108, 105, 99, 101, 104, 101, 97, 100, 101, 114>>],
  [key |-> "gf", name |-> <<103, 108, 111, 98, 97, 108, 115, 108, 105, 99, 101, 102, 111, 111, 116, 101, 114>>],
  [key |-> "ph", name |-> <<112, 101, 114, 112, 111, 105, 110, 116, 104, 101, 97, 100, 101, 114>>],
  [key |-> "pf", name |-> <<112, 101, 114, 112, 111, 105, 110, 116, 102, 111, 111, 116, 101, 114>>],
  [key |-> "sh", name |-> <<115, 105, 110, 103, 108, 101, 112, 111, 105, 110, 116, 104, 101, 97, 100, 101, 114>>],
  [key |-> "sf", name |-> <<115, 105, 110, 103, 108, 101, 112, 111, 105, 110, 116, 102, 111, 111, 116, 101, 114>>] }
HeaderKeys == {"gh", "gf", "ph", "pf", "sh", "sf"}
KeysOf(c) == {"endian", "sub"} \cup HeaderKeys
             \cup (IF c.f \in {"short", "long", "xy"} THEN {"h1"} ELSE {}) \cup (IF c.f \in {"long", "xy"} THEN {"h2"} ELSE {})
Fold1(name) == [i \in DOMAIN name |-> IF name[i] >= 65 /\ name[i] <= 90 THEN name[i] + 32 ELSE name[i]]
KeyOf(c, name) == LET S == { t \in Table : t.name = Fold1(name) /\ t.key \in KeysOf(c) } IN IF S = {} THEN "" ELSE (CHOOSE t \in S : TRUE).key
NameOf(key) == (CHOOSE t \in Table : t.key = key).name

(* values: [k |-> "order", v |-> be], "bith" with <<bits, length>>, "bool", "bytes" or, just as
   well, "text"; anything else has another k *)
Admissible(c, key, val) ==
  CASE key = "endian" -> val.k = "order"
    [] key \in {"h1", "h2"} -> val.k = "bith"
    [] key = "sub" -> val.k = "bool" /\ (c.f \in {"short", "long"} => val.v)
    [] key \in HeaderKeys -> val.k \in {"bytes", "text"}
    [] OTHER -> FALSE
Changed(c, key, v) == CASE key = "endian" -> [c EXCEPT !.be = v]
                        [] key = "sub" -> [c EXCEPT !.sub = v]
                        [] key = "h1" -> [c EXCEPT !.h1 = v]
                        [] key = "h2" -> [c EXCEPT !.h2 = v]
                        [] key = "gh" -> [c EXCEPT !.gh = v]
                        [] key = "gf" -> [c EXCEPT !.gf = v]
                        [] key = "ph" -> [c EXCEPT !.ph = v]
                        [] key = "pf" -> [c EXCEPT !.pf = v]
                        [] key = "sh" -> [c EXCEPT !.sh = v]
                        [] key = "sf" -> [c EXCEPT !.sf = v]
Lookup(c, key) == CASE key = "endian" -> c.be
                    [] key = "sub" -> c.sub
                    [] key = "h1" -> c.h1
                    [] key = "h2" -> c.h2
                    [] key = "gh" -> c.gh
                    [] key = "gf" -> c.gf
                    [] key = "ph" -> c.ph
                    [] key = "pf" -> c.pf
                    [] key = "sh" -> c.sh
                    [] key = "sf" -> c.sf
(* <<>> if refused *)
With(c, name, val) == LET key == KeyOf(c, name) IN IF key = "" THEN <<>> ELSE IF ~Admissible(c, key, val) THEN <<>> ELSE <<Changed(c, key, val.v)>>
=============================================================================
