--------------------------- MODULE ConstantsTrace ---------------------------
(* The published constants of all packages and the relations that define   *)
(* them.  They hold at any time, whatever the constants were used for.     *)
EXTENDS Curve, TraceBase
CONSTANTS Order, Lambda
VARIABLES e, l, bad
vars == <<e, l, bad>>
Init == e \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE
Low(x) == BMod(x, BShl(BInt(1), 64))
High(x) == BShr(x, 192)
(* strong probable prime to every base in the list *)
RECURSIVE Twos(_)
Twos(m) == IF BBit(m, 0) = 1 THEN 0 ELSE 1 + Twos(BShr(m, 1))
Strong(n, a) == LET m == BSub(n, BInt(1))
                    s == Twos(m)
                    y == BPowMod(BInt(a), BShr(m, s), n)
                IN y = "1" \/ \E i \in 0..(s - 1) : BPowMod(y, BShl(BInt(1), i), n) = m
Prime(n) == \A a \in {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71} : Strong(n, a)
Legendre(x, p) == BPowMod(BMod(x, p), BShr(BSub(p, BInt(1)), 1), p)
MinusOne(p) == BSub(p, BInt(1))
(* the curve a x^2 + y^2 = 1 + d x^2 y^2, a = -5, with the stated order: a point of order n is found by doubling twice *)
ConstantRules(o) == <<
  <<"the constants of this specification", o.p = P /\ o.n = Order /\ o.l = Lambda>>,
  <<"field size is a prime of 255 bits", (o.tests => Prime(o.p)) /\ BBitLen(o.p) = o.pbits /\ o.pbits = 255 /\ o.pbytes = 32 /\ o.puntyped>>,
  <<"group order is prime", (o.tests => Prime(o.n)) /\ BBitLen(o.n) = 253>>,
  <<"two representations agree", o.p = o.pstr /\ o.n = o.nstr /\ o.h = o.hstr /\ o.c = o.cstr /\ o.x = o.xstr /\ o.l = o.lstr /\ o.h = BInt(o.hnum)>>,
  <<"untyped constants agree", \A t \in { <<o.p, o.plow, o.phigh>>, <<o.n, o.nlow, o.nhigh>>, <<o.c, o.clow, o.chigh>>, <<o.x, o.xlow, o.xhigh>>, <<o.l, o.llow, o.lhigh>> } :
                                Low(t[1]) = t[2] /\ High(t[1]) = t[3]>>,
  <<"orders", o.h = "4" /\ o.c = BMul(o.h, o.n) /\ o.x = BMul("2", o.n)>>,
  <<"Hasse interval", LET t == BSub(BAdd(o.p, "1"), o.c) IN BLe(BMul(t, t), BMul("4", o.p))>>,
  <<"endomorphism eigenvalue is a square root of -2", BMod(BAdd(BMul(o.l, o.l), "2"), o.n) = "0" /\ BLt(o.l, o.n)>>,
  <<"-8 is a discriminant of the trace", LET t == BSub(BAdd(o.p, "1"), o.c)
                                             f == BSub(BMul("4", o.p), BMul(t, t)) IN BMod(f, "8") = "0"
                                         /\ \E i \in {1} : Legendre(BNeg("2"), o.p) = "1">>,
  <<"curve parameters: a and d non-squares", Legendre(BNeg("5"), o.p) = MinusOne(o.p) /\ Legendre(D, o.p) = MinusOne(o.p)>>,
  <<"powers of two", o.pow = <<"1", "2", BShl("1", 32), BShl("1", 64), BShl("1", 128), BShl("1", 256), BShl("1", 512), BNeg("1")>> >> >>
OddPart == BShr(BSub(P, BInt(1)), 32)
FieldRules(o) == <<
  <<"base field size in all forms", \A i \in 1..Len(o.p) : o.p[i] = P>>,
  <<"lengths", o.bits = <<255, 32>> /\ o.same>>,
  <<"two-adicity and odd part", o.adic = 32 /\ o.odd = OddPart /\ BBit(OddPart, 0) = 1 /\ BShl(OddPart, 32) = BSub(P, BInt(1)) /\ Low(OddPart) = o.oddlow /\ High(OddPart) = o.oddhigh>>,
  <<"root of unity in all forms", LET r == o.v["root"] IN o.rootstr = r /\ Low(r) = o.rootlow /\ High(r) = o.roothigh>>,
  <<"order of the root of unity", BPowMod(o.v["root"], BShl(BInt(1), 31), P) = BSub(P, BInt(1))>>,
  <<"field elements", o.v["zero"] = "0" /\ o.v["one"] = "1" /\ o.v["two"] = "2" /\ o.v["minus one"] = BSub(P, BInt(1)) /\ o.v["a"] = A /\ o.v["d"] = D>> >>
(* multiples of a point *)
RECURSIVE Multiple(_, _)
Multiple(k, v) == IF k = "0" THEN N ELSE LET h == PDouble(Multiple(BShr(k, 1), v)) IN IF BBit(k, 0) = 1 THEN PAdd(h, v) ELSE h
PointRule(o, i) == LET v == ValueOf(o.pts[i].c) IN
  CASE o.pts[i].kind = "N" -> v = N
    [] o.pts[i].kind = "A" -> v = A2
    [] o.pts[i].kind = "E1" -> v = E1
    [] o.pts[i].kind = "E2" -> v = E2
    [] OTHER -> v.k = "aff" /\ v # N /\ (o.tests => Multiple(Order, v) = N)
CurveRules(o) == <<
  <<"base field size in all forms", \A i \in 1..Len(o.p) : o.p[i] = P>>,
  <<"lengths and orders", o.bits = <<255, 32>> /\ o.same /\ o.n = Order /\ o.l = Lambda>>,
  <<"coefficient a in all forms", (\A i \in 1..Len(o.a) : o.a[i] = BNeg("5")) /\ o.afe = BSub(P, BInt(5)) /\ o.afe = A>>,
  <<"coefficient d in all forms", (\A i \in 1..Len(o.d) : o.d[i] = D) /\ Low(D) = o.dlow /\ High(D) = o.dhigh>>,
  <<"published points", \A i \in 1..Len(o.pts) : PointRule(o, i)>> >>
ExponentRules(o) == << <<"orders and eigenvalue", o.same /\ o.n = Order /\ o.c = BMul("4", Order) /\ o.x = BMul("2", Order) /\ o.l = Lambda>> >>
Rules(o) == CASE o.op = "Constants" -> ConstantRules(o)
              [] o.op = "Field" -> FieldRules(o)
              [] o.op = "Curve" -> CurveRules(o)
              [] o.op = "Exponents" -> ExponentRules(o)
              [] o.op = "Use" -> << >>
Step == /\ ~bad /\ l <= Len(Trace[e].ev)
        /\ LET o == Trace[e].ev[l] IN
           IF o.op = "UNEXPECTED_PANIC" THEN bad' = TRUE /\ Reject(e, l, "panic", o.msg) /\ UNCHANGED <<e, l>>
           ELSE LET broken == SelectSeq(Rules(o), LAMBDA r : ~r[2]) IN
                IF broken = <<>> THEN l' = l + 1 /\ UNCHANGED <<e, bad>>
                ELSE bad' = TRUE /\ Reject(e, l, broken[1][1], 0) /\ UNCHANGED <<e, l>>
Spec == Init /\ [][Step]_vars
=============================================================================
