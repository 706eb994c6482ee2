------------------------------- MODULE Wide -------------------------------
(***************************************************************************)
(* The machine of wide unsigned integers: a bank u of registers holding    *)
(* integers in [0, R) and one double-width register w in [0, R^2).         *)
(* Operations are either exact (Exact gives the only allowed outcome) or   *)
(* modular (Modular is a relation: congruence modulo P plus the promised   *)
(* output range, for operands inside the required input range).            *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC, SequencesExt

CONSTANTS P, Bits                          \* odd modulus; register width: R = 2^Bits
Zero == "0"
One == "1"
R == BShl(One, Bits)
Limb == Bits \div 4                        \* width of a limb
L == BShl(One, Limb)
Cong(a, b) == BMod(BSub(a, b), P) = Zero
Full(v) == BLe(Zero, v) /\ BLt(v, R)

(* ranges:  a any, b below 2P, c below R-P, f below P *)
In(r, v) == /\ BLe(Zero, v)
            /\ CASE r = "a" -> BLt(v, R)
                 [] r = "b" -> BLt(v, BMul("2", P))
                 [] r = "c" -> BLt(v, BSub(R, P))
                 [] r = "f" -> BLt(v, P)

B2I(b) == IF b THEN 1 ELSE 0
None == "-"

(* exact operations: [z |-> new receiver, w |-> new double register, ret |-> result]; out = "panic" if refused *)
Exact(u, w, o) ==
  LET x == u[o.x]
      y == u[o.y]
      keep == [z |-> u[o.z], w |-> w, ret |-> None, out |-> "ok"]
      setz(v) == [keep EXCEPT !.z = v]
      refuse == [keep EXCEPT !.out = "panic"]
  IN CASE o.op = "Add"   -> setz(BMod(BAdd(x, y), R))
       [] o.op = "AddC"  -> [setz(BMod(BAdd(x, y), R)) EXCEPT !.ret = IF BLe(R, BAdd(x, y)) THEN "1" ELSE "0"]
       [] o.op = "Sub"   -> setz(BMod(BSub(x, y), R))
       [] o.op = "SubB"  -> [setz(BMod(BSub(x, y), R)) EXCEPT !.ret = IF BLt(x, y) THEN "1" ELSE "0"]
       [] o.op = "Mul"   -> setz(BMod(BMul(x, y), R))
       [] o.op = "Inc"   -> setz(BMod(BAdd(x, One), R))
       [] o.op = "Dec"   -> setz(BMod(BSub(x, One), R))
       [] o.op = "Shr"   -> setz(BShr(u[o.z], o.n))
       [] o.op = "ShrL"  -> [setz(BShr(u[o.z], Limb)) EXCEPT !.ret = BMod(u[o.z], L)]
       [] o.op = "ShlL"  -> [setz(BMod(BShl(u[o.z], Limb), R)) EXCEPT !.ret = BShr(u[o.z], Bits - Limb)]
       [] o.op = "Zero"  -> setz(Zero)
       [] o.op = "One"   -> setz(One)
       [] o.op = "Copy"  -> setz(x)
       [] o.op = "SetV"  -> IF BLe(Zero, o.v) /\ BLt(o.v, R) THEN setz(o.v) ELSE refuse
       [] o.op = "WSetV" -> IF BLe(Zero, o.v) /\ BLt(o.v, BMul(R, R)) THEN [keep EXCEPT !.w = o.v] ELSE refuse
       [] o.op = "WMul"  -> [keep EXCEPT !.w = BMul(x, y)]
       [] o.op = "WSq"   -> [keep EXCEPT !.w = BMul(x, x)]
       [] o.op = "WSet"  -> [keep EXCEPT !.w = x]
       [] o.op = "WGet"  -> IF BLt(w, R) THEN setz(w) ELSE refuse
       [] o.op = "MulL"  -> [keep EXCEPT !.ret = BMul(x, o.v)]

ExactOps == {"Add", "AddC", "Sub", "SubB", "Mul", "Inc", "Dec", "Shr", "ShrL", "ShlL", "Zero", "One", "Copy", "SetV",
             "WSetV", "WMul", "WSq", "WSet", "WGet", "MulL"}

View(v) == [big    |-> v,
            dec    |-> BDec(v),
            hex    |-> v,
            bitlen |-> BBitLen(v),
            isz    |-> v = Zero,
            is1    |-> v = One,
            a      |-> In("a", v),
            b      |-> In("b", v),
            c      |-> In("c", v),
            f      |-> In("f", v)]

Compare(x, y) == [cmp |-> BCmp(x, y), less |-> BLt(x, y)]

(* modular operations: input range, output range, exact value *)
Rinv == BInvMod(BMod(R, P), P)
ModOps == [AddB |-> <<"b", "b">>, AddCc |-> <<"c", "c">>, SubBb |-> <<"b", "b">>, SubCc |-> <<"c", "c">>,
           AddA |-> <<"a", "a">>, SubA |-> <<"a", "a">>, DblA |-> <<"a", "a">>, MulA |-> <<"a", "a">>, SqA |-> <<"a", "a">>,
           RedA |-> <<"a", "f">>, RedCA |-> <<"a", "c">>, RedFB |-> <<"b", "f">>,
           MulM |-> <<"c", "c">>, SqM |-> <<"c", "c">>, ToM |-> <<"c", "c">>, FromM |-> <<"c", "f">>,
           NegA |-> <<"a", "a">>, ExpA |-> <<"a", "f">>, ExpM |-> <<"a", "f">>]
TwoOperands == {"AddB", "AddCc", "SubBb", "SubCc", "AddA", "SubA", "MulA", "MulM"}

ModValue(u, o) ==
  LET x == u[o.x]
      y == u[o.y]
  IN CASE o.op \in {"AddB", "AddCc", "AddA"} -> BAddMod(x, y, P)
       [] o.op \in {"SubBb", "SubCc", "SubA"} -> BSubMod(x, y, P)
       [] o.op = "DblA" -> BAddMod(x, x, P)
       [] o.op = "MulA" -> BMulMod(x, y, P)
       [] o.op = "SqA"  -> BMulMod(x, x, P)
       [] o.op \in {"RedA", "RedCA", "RedFB"} -> BMod(x, P)
       [] o.op = "MulM" -> BMulMod(BMul(x, y), Rinv, P)
       [] o.op = "SqM"  -> BMulMod(BMul(x, x), Rinv, P)
       [] o.op = "ToM"  -> BMulMod(x, R, P)
       [] o.op = "FromM" -> BMulMod(x, Rinv, P)
       [] o.op = "NegA" -> BMod(BNeg(x), P)
       [] o.op = "ExpA" -> BPowMod(BMod(x, P), o.v, P)
       [] o.op = "ExpM" -> BMulMod(BPowMod(BMulMod(x, Rinv, P), o.v, P), R, P)

Admissible(u, o) ==
  /\ In(ModOps[o.op][1], u[o.x])
  /\ o.op \in TwoOperands => In(ModOps[o.op][1], u[o.y])

ModAllowed(u, o, zz) == In(ModOps[o.op][2], zz) /\ Cong(zz, ModValue(u, o))

(* reduction of the double register, inversion *)
WRedAllowed(w, zz) == In("a", zz) /\ Cong(zz, w)
InvAllowed(x, z0, zz, ok) ==
  IF BMod(x, P) = Zero THEN ok = FALSE
  ELSE ok = TRUE /\ In("a", zz) /\ BMulMod(zz, x, P) = One

(* constants derived from a modulus m of at least 3 full limbs: reciprocal, multiples next to R *)
Derived(m) ==
  IF BLt(m, BShl(One, Bits - Limb)) THEN [out |-> "panic", re |-> Zero, lo |-> Zero, hi |-> Zero]
  ELSE LET lo == BMul(m, BDiv(BSub(R, One), m)) IN
       [out |-> "ok", re |-> BDiv(BSub(BMul(R, R), One), m), lo |-> lo, hi |-> BSub(BAdd(lo, m), R)]
(* z is a primitive root of unity of order 2^i *)
DyadicOrder(z, i) ==
  /\ i >= 0
  /\ BPowMod(z, BShl(One, i), P) = One
  /\ i > 0 => BPowMod(z, BShl(One, i - 1), P) # One

(* sliding window recoding of v *)
SlidingOK(ds, v, win) ==
  /\ \A i \in DOMAIN ds : BMod(ds[i].e, "2") = One /\ BLt(ds[i].e, BShl(One, win)) /\ ds[i].p >= 0
  /\ \A i \in 1..(Len(ds) - 1) : ds[i].p > ds[i + 1].p
  /\ FoldLeft(LAMBDA acc, d : BAdd(acc, BShl(d.e, d.p)), Zero, ds) = v
=============================================================================
