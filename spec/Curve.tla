------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* The twisted Edwards curve  a x^2 + y^2 = 1 + d x^2 y^2  as users see it: *)
(* abstract points, the group law, the efficient endomorphism, the prime   *)
(* order subgroup, "not a point" values (NaPs), the six point types and    *)
(* what each can hold, and the meaning of projective coordinates.          *)
(*                                                                         *)
(* Abstract values are records [k, x, y]: k = "aff" with affine coordinates *)
(* x, y; "E1" and "E2", the two points at infinity; "nap".                  *)
(*                                                                         *)
(* a and d are non-squares, so the addition law has exceptional cases only *)
(* where points at infinity are involved.  Both points at infinity have    *)
(* order two, as does A = (0,-1).                                          *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC

CONSTANTS P,          \* odd prime
          A, D,       \* curve coefficients
          R,          \* R^2 = d/a; E1 is (R : 0 : 1 : 0) in coordinates X : Y : T : Z
          EB, EC      \* coefficients of the endomorphism

Zero == "0"
One == "1"
MOne == BSub(P, One)
Add2(u, v) == BAddMod(u, v, P)
Sub2(u, v) == BSubMod(u, v, P)
Mul2(u, v) == BMulMod(u, v, P)
Sq(u) == BMulMod(u, u, P)
Neg1(u) == BSubMod(Zero, u, P)
Inv1(u) == BInvMod(u, P)
Half == BDiv(BSub(P, One), "2")
Chi(v) == IF v = Zero THEN 0 ELSE IF BPowMod(v, Half, P) = One THEN 1 ELSE -1
Sign(v) == IF v = Zero THEN 0 ELSE IF BLe(v, Half) THEN 1 ELSE -1

Aff(u, v) == [k |-> "aff", x |-> u, y |-> v]
Special(name) == [k |-> name, x |-> Zero, y |-> Zero]
NaP == Special("nap")
E1 == Special("E1")
E2 == Special("E2")
N == Aff(Zero, One)
A2 == Aff(Zero, MOne)                          \* affine point of order two

OnCurveXY(x, y) == Add2(Mul2(A, Sq(x)), Sq(y)) = Add2(One, Mul2(D, Mul2(Sq(x), Sq(y))))
IsInf(v) == v.k \in {"E1", "E2"}
IsAff(v) == v.k = "aff"
ValidPoint(v) == v.k \in {"E1", "E2"} \/ (v.k = "aff" /\ OnCurveXY(v.x, v.y))

(* ---- extended projective coordinates <<X, Y, T, Z>> with XY = TZ *)
Proj(v) == IF v.k = "E1" THEN <<R, Zero, One, Zero>>
           ELSE IF v.k = "E2" THEN <<Neg1(R), Zero, One, Zero>>
           ELSE IF v.k = "aff" THEN <<v.x, v.y, Mul2(v.x, v.y), One>>
           ELSE <<Zero, Zero, Zero, Zero>>
OnCurve4(c) ==
  /\ Mul2(c[1], c[2]) = Mul2(c[3], c[4])
  /\ Add2(Mul2(A, Sq(c[1])), Sq(c[2])) = Add2(Sq(c[4]), Mul2(D, Sq(c[3])))
(* the value coordinates stand for; <<0, 0, t, z>> is the mark of an invalid point *)
ValueOf(c) ==
  IF c[1] = Zero /\ c[2] = Zero THEN NaP
  ELSE IF ~OnCurve4(c) THEN Special("off the curve")
  ELSE IF c[4] # Zero THEN LET i == Inv1(c[4]) IN Aff(Mul2(c[1], i), Mul2(c[2], i))
  ELSE IF c[2] # Zero THEN Special("off the curve")
  ELSE IF c[1] = Mul2(R, c[3]) THEN E1
  ELSE IF c[1] = Neg1(Mul2(R, c[3])) THEN E2
  ELSE Special("off the curve")

(* ---- the group law on valid points *)
AddPts(p, q) ==
  LET a == Proj(p) b == Proj(q)
      e == Add2(Mul2(a[1], b[2]), Mul2(a[2], b[1]))
      f0 == Sub2(Mul2(a[4], b[4]), Mul2(D, Mul2(a[3], b[3])))
      g0 == Add2(Mul2(a[4], b[4]), Mul2(D, Mul2(a[3], b[3])))
      h0 == Sub2(Mul2(a[2], b[2]), Mul2(A, Mul2(a[1], b[1])))
      \* where the unified law degenerates the dual law takes over
      dual == Mul2(e, f0) = Zero /\ Mul2(g0, h0) = Zero
      f == IF dual THEN Sub2(Mul2(a[2], b[1]), Mul2(a[1], b[2])) ELSE f0
      h == IF dual THEN Sub2(Mul2(a[4], b[3]), Mul2(a[3], b[4])) ELSE h0
      ee == IF dual THEN Add2(Mul2(a[4], b[3]), Mul2(a[3], b[4])) ELSE e
      gg == IF dual THEN Add2(Mul2(a[2], b[2]), Mul2(A, Mul2(a[1], b[1]))) ELSE g0
  IN ValueOf(<<Mul2(ee, f), Mul2(gg, h), Mul2(ee, h), Mul2(f, gg)>>)

Lift2(Op(_, _), p, q) == IF p = NaP \/ q = NaP THEN NaP ELSE Op(p, q)
Lift1(Op(_), p) == IF p = NaP THEN NaP ELSE Op(p)

NegPt(p) == IF IsAff(p) THEN Aff(Neg1(p.x), p.y) ELSE p
PlusA(p) == IF p = E1 THEN E2 ELSE IF p = E2 THEN E1 ELSE IF p = NaP THEN NaP ELSE Aff(Neg1(p.x), Neg1(p.y))
PAdd(p, q) == Lift2(AddPts, p, q)
PNeg(p) == Lift1(NegPt, p)
PSub(p, q) == PAdd(p, PNeg(q))
PDouble(p) == PAdd(p, p)

(* ---- the endomorphism: e = c(1-y^2), f = y^2-b, g = x y, h = b(y^2+b);  result (e f : g h : e h : f g) *)
EndoPt(p) ==
  IF IsInf(p) THEN A2
  ELSE IF p.x = Zero THEN N
  ELSE LET y2 == Sq(p.y)
           e == Mul2(EC, Sub2(One, y2))
           f == Sub2(y2, EB)
           g == Mul2(p.x, p.y)
           h == Mul2(EB, Add2(y2, EB))
       IN ValueOf(<<Mul2(e, f), Mul2(g, h), Mul2(e, h), Mul2(f, g)>>)
PEndo(p) == Lift1(EndoPt, p)

(* n * p for n >= 0 *)
RECURSIVE TimesFrom(_, _, _)
TimesFrom(acc, p, bits) ==        \* most significant bit first
  IF bits = 0 THEN acc[1]
  ELSE LET dd == PDouble(acc[1])
           nx == IF BBit(acc[2], bits - 1) = 1 THEN PAdd(dd, p) ELSE dd
       IN TimesFrom(<<nx, acc[2]>>, p, bits - 1)
Times(n, p) == TimesFrom(<<N, n>>, p, BBitLen(n))

(* ---- the prime order subgroup.  1 - a x^2 is a square exactly on the subgroup and its coset by A; of p and p + A
   the second character picks the one in the subgroup. *)
InSub(p) ==
  /\ IsAff(p)
  /\ Chi(Sub2(One, Mul2(A, Sq(p.x)))) = 1
  /\ Chi(Mul2(Sub2(One, p.y), Sub2(One, Mul2(R, p.y)))) \in {0, -1}

MapToField(p) == Mul2(p.x, Inv1(p.y))

(* ---- point types.  First letter: coordinates (x: extended, a: affine, e: efgh); second: s(ubgroup only), f(ull curve) *)
SubTypes == {"xs", "as", "es"}
FullTypes == {"xf", "af", "ef"}
Types == SubTypes \cup FullTypes
IsSub(t) == t \in SubTypes
CanInf(t) == t \in {"xf", "ef"}
CanHold(t, v) == v = NaP \/ (IF IsSub(t) THEN InSub(v) ELSE ValidPoint(v) /\ (CanInf(t) \/ IsAff(v)))

(* do decaf coordinates c of an object of type t stand for v? *)
Stands(t, c, v) == LET w == ValueOf(c) IN w = v \/ (IsSub(t) /\ v # NaP /\ w = PlusA(v))

(***************************************************************************)
(* The point machine: a bank of registers, each an object of a fixed type   *)
(* holding a value.  An operation names a receiver z and operands x, y,      *)
(* possibly the same object.                                                *)
(***************************************************************************)
Binary == {"Add", "Sub"}
BinaryEq == {"AddEq", "SubEq"}
Unary == {"Neg", "Double", "Endo", "SetFrom"}
UnaryEq == {"NegEq", "DoubleEq", "EndoEq"}
Const == {"SetNeutral", "SetAffineTwoTorsion", "SetE1", "SetE2"}
Moving == Binary \cup BinaryEq \cup Unary \cup UnaryEq \cup Const

Operands(o) == CASE o.op \in Binary -> <<o.x, o.y>>
                 [] o.op \in BinaryEq -> <<o.z, o.x>>
                 [] o.op \in Unary -> <<o.x>>
                 [] o.op \in UnaryEq -> <<o.z>>
                 [] OTHER -> <<>>
HasOp(t, op) == CASE op = "SetAffineTwoTorsion" -> ~IsSub(t)
                  [] op \in {"SetE1", "SetE2"} -> CanInf(t)
                  [] OTHER -> TRUE

ResultOf(v, o) ==
  CASE o.op = "Add"   -> PAdd(v[o.x], v[o.y])
    [] o.op = "Sub"   -> PSub(v[o.x], v[o.y])
    [] o.op = "AddEq" -> PAdd(v[o.z], v[o.x])
    [] o.op = "SubEq" -> PSub(v[o.z], v[o.x])
    [] o.op = "Neg"   -> PNeg(v[o.x])
    [] o.op = "NegEq" -> PNeg(v[o.z])
    [] o.op = "Double" -> PDouble(v[o.x])
    [] o.op = "DoubleEq" -> PDouble(v[o.z])
    [] o.op = "Endo"  -> PEndo(v[o.x])
    [] o.op = "EndoEq" -> PEndo(v[o.z])
    [] o.op = "SetFrom" -> v[o.x]
    [] o.op = "SetNeutral" -> N
    [] o.op = "SetAffineTwoTorsion" -> A2
    [] o.op = "SetE1" -> E1
    [] o.op = "SetE2" -> E2

(* assigning the result of an operation on general points to a subgroup-only object is refused by a panic, whatever the
   points are; doubling always leads into the subgroup *)
Mixed(ty, o) == IsSub(ty[o.z]) /\ o.op \notin {"Double", "DoubleEq"} /\ \E i \in DOMAIN Operands(o) : ~IsSub(ty[Operands(o)[i]])
Outcomes(ty, v, o) ==
  LET r == ResultOf(v, o) IN
  IF Mixed(ty, o) THEN (IF r = NaP THEN {"ok", "panic"} ELSE {"panic"})
  ELSE IF IsInf(r) /\ ~CanInf(ty[o.z]) THEN {"panic"}
  ELSE {"ok"}

(* checked conversion *)
SubgroupOK(v, o) == v[o.x] # NaP /\ InSub(v[o.x])
AfterSetSub(v, o) == IF SubgroupOK(v, o) THEN [v EXCEPT ![o.z] = v[o.x]] ELSE v

(***************************************************************************)
(* Reconstruction from coordinates.  o has fields f (which constructor),    *)
(* a, b (the coordinates given), s (sign) and, where the missing coordinate *)
(* exists, wit: one of its two values (checked, not trusted).               *)
(***************************************************************************)
XNum(x) == Sub2(One, Mul2(A, Sq(x)))
XDen(x) == Sub2(One, Mul2(D, Sq(x)))
YNum(y) == Sub2(Sq(y), One)
YDen(y) == Sub2(Mul2(D, Sq(y)), A)
XExists(x) == Chi(Mul2(XNum(x), XDen(x))) = 1             \* x is the coordinate of an affine curve point
YExists(y) == YDen(y) # Zero /\ Chi(Mul2(YNum(y), YDen(y))) # -1
XSubExists(x) == XExists(x) /\ Chi(XNum(x)) = 1           \* ... of one in the subgroup
WithSign(v, s) == IF Sign(v) = s THEN v ELSE Neg1(v)
WitnessOK(o) == CASE o.f \in {"XAndSignY_full", "XAndSignY_subgroup"} -> XExists(o.a) => OnCurveXY(o.a, o.wit)
                  [] o.f \in {"YAndSignX_full", "YAndSignX_subgroup"} -> YExists(o.a) => OnCurveXY(o.wit, o.a)
                  [] OTHER -> TRUE
Err(sets) == [err |-> sets]
(* [v |-> point] or [err |-> allowed sets of errors]. o.sb is the integer given as sign (BigNat), o.s its value if small, 99 otherwise *)
Ctor(o) ==
  CASE o.f \in {"XYAffine_full", "XYAffine_subgroup"} ->
         IF o.a = Zero /\ o.b = Zero THEN Err({{"CannotDeserializeXYAllZero", "CannotDeserializeNaP"}})
         ELSE IF ~OnCurveXY(o.a, o.b) THEN Err({{"NotOnCurve"}})
         ELSE IF o.f = "XYAffine_subgroup" /\ ~InSub(Aff(o.a, o.b)) THEN Err({{"NotInSubgroup"}})
         ELSE [v |-> Aff(o.a, o.b)]
    [] o.f \in {"XAndSignY_full", "XAndSignY_subgroup"} ->
         IF o.s \notin {-1, 1} THEN Err({{"InvalidSign"}})
         ELSE IF ~XExists(o.a) THEN Err({{"XNotOnCurve"}})
         ELSE LET v == Aff(o.a, WithSign(o.wit, o.s)) IN
              IF o.f = "XAndSignY_full" THEN [v |-> v]
              ELSE IF ~XSubExists(o.a) THEN Err({{"XNotInSubgroup"}, {"NotInSubgroup"}})
              ELSE IF ~InSub(v) THEN Err({{"NotInSubgroup"}})
              ELSE [v |-> v]
    [] o.f \in {"YAndSignX_full", "YAndSignX_subgroup"} ->
         IF o.s = 0 /\ o.a \notin {One, MOne} THEN Err({{"InvalidZeroSignX"}})
         ELSE IF o.s \notin {-1, 0, 1} THEN Err({{"InvalidSign"}})
         ELSE IF ~YExists(o.a) THEN Err({{"YNotOnCurve"}})
         ELSE LET v == Aff(WithSign(o.wit, o.s), o.a) IN
              IF o.f = "YAndSignX_subgroup" /\ ~InSub(v) THEN Err({{"NotInSubgroup"}})
              ELSE [v |-> v]
    [] o.f = "XTimesSignY_subgroup" ->       \* the unique subgroup point with x * sign(y) = a, known up to adding A
         IF ~XExists(o.a) THEN Err({{"XNotOnCurve"}})
         ELSE IF ~XSubExists(o.a) THEN Err({{"XNotInSubgroup"}})
         ELSE [xs |-> o.a]
    [] o.f \in {"XYTimesSignY_subgroup", "YXTimesSignY_subgroup"} ->
         IF Sign(o.b) # 1 THEN Err({{"WrongSignY"}})
         ELSE IF ~OnCurveXY(o.a, o.b) THEN Err({{"NotOnCurve"}})
         ELSE IF Chi(XNum(o.a)) # 1 THEN Err({{"NotInSubgroup"}})
         ELSE LET v == Aff(o.a, o.b) IN [v |-> IF InSub(v) THEN v ELSE PlusA(v)]
(* does the point w (up to A for subgroup types) satisfy the outcome ok of the constructor? *)
CtorPoint(o, w) ==
  LET r == Ctor(o)
      t == IF ValidPoint(w) /\ IsAff(w) /\ ~InSub(w) THEN PlusA(w) ELSE w IN
  IF "xs" \in DOMAIN r
  THEN ValidPoint(w) /\ IsAff(w) /\ InSub(t) /\ (IF Sign(t.y) = 1 THEN t.x ELSE Neg1(t.x)) = r.xs
  ELSE w = r.v \/ (o.f \in {"XYTimesSignY_subgroup", "YXTimesSignY_subgroup", "XYAffine_subgroup", "XAndSignY_subgroup", "YAndSignX_subgroup"} /\ w = PlusA(r.v))
(* data the error must carry *)
CtorData(o) ==
  CASE o.f \in {"XYAffine_full", "XYAffine_subgroup"} -> {[X |-> o.a, Y |-> o.b]}
    [] o.f \in {"XAndSignY_full", "XAndSignY_subgroup"} -> {[X |-> o.a, SignY |-> o.sb]}
    [] o.f \in {"YAndSignX_full", "YAndSignX_subgroup"} -> {[Y |-> o.a, SignX |-> o.sb]}
    [] o.f = "XTimesSignY_subgroup" -> {[X |-> o.a], [X |-> Neg1(o.a)]}
    [] OTHER -> {[XSignY |-> o.a, YSignY |-> o.b]}
=============================================================================
