---------------------------- MODULE HelpersModel ----------------------------
(* Laws of the helper definitions over all small inputs. *)
EXTENDS Helpers, TLC
VARIABLES kind, a, b, f
vars == <<kind, a, b, f>>
Elts == -2..2
Lists == UNION { [1..n -> Elts] : n \in 0..3 }
Norms == {"none", "abs", "mod3", "const"}
Views == { v \in [nil : BOOLEAN, arr : {1, 2}, off : 0..2, cap : 0..2] : (v.nil => v.cap = 0 /\ v.off = 0) /\ v.off + v.cap <= 2 }
Strings == UNION { [1..n -> {45, 48, 49, 56, 95, 97, 120, 98}] : n \in 0..5 }
Words == [1..4 -> {"0", "1", "ffffffffffffffff"}]
Init == \/ kind = "list" /\ a \in Lists /\ b \in Lists /\ f \in Norms
        \/ kind = "view" /\ a \in Views /\ b \in Views /\ f = ""
        \/ kind = "string" /\ a \in Strings /\ b = 0 /\ f = ""
        \/ kind = "word" /\ a \in Words /\ b \in 0..255 /\ f = ""
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
NoDup(g, s) == \A i, j \in DOMAIN s : i # j => Norm(g, s[i]) # Norm(g, s[j])
ListLaws == kind = "list" =>
  LET d == Dedup(f, a \o b) IN
    /\ NoDup(f, d) /\ \A i \in DOMAIN (a \o b) : InList(f, (a \o b)[i], d)
    /\ \A i \in DOMAIN d : InList("none", d[i], a \o b)
    /\ d = Dedup(f, Dedup(f, a) \o b) /\ Dedup(f, d) = d
    /\ (NoDup(f, a) => SubSeq(d, 1, Len(a)) = a)
    /\ \A x \in Elts : InList(f, Norm(f, x), a) = InList(f, x, a)
ViewLaws == kind = "view" =>
    /\ Aliased(a, b) = Aliased(b, a) /\ (a.cap > 0 => Aliased(a, a))
    /\ Aliased(a, b) => a.arr = b.arr
StringLaws == kind = "string" /\ WellFormed(a) =>
    /\ (a[1] # 45 => BCmp(ValueOf(a), "0") >= 0)
    /\ (a[1] # 45 => WellFormed(<<45>> \o a) /\ ValueOf(<<45>> \o a) = BNeg(ValueOf(a)))
    /\ (BaseOf(Unsigned(a)) = 10 => \A i \in DOMAIN a : a[i] \in {45, 48, 49, 56, 95})
WordLaws == kind = "word" =>
    /\ FitsWords(FromWords(a)) /\ ToWords(FromWords(a)) = a
    /\ BBit(FromWords(a), b) = BBit(a[(b \div 64) + 1], b % 64)
=============================================================================
