------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* Definitions of the helper functions.  A slice or map that may be nil is *)
(* a record [nil |-> BOOLEAN, v |-> sequence]; a map is a sequence of      *)
(* <<key, value>> pairs with distinct keys.                                *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, SequencesExt
AsSet(s) == { s[i] : i \in DOMAIN s }
Norm(f, x) == CASE f = "abs" -> IF x < 0 THEN -x ELSE x
                [] f = "mod3" -> ((x % 3) + 3) % 3
                [] f = "const" -> 0
                [] OTHER -> x

SlicesEqual(x, y) == x.nil = y.nil /\ x.v = y.v
MapsEqual(x, y) == x.nil = y.nil /\ AsSet(x.v) = AsSet(y.v)
InList(f, a, list) == \E i \in DOMAIN list : Norm(f, list[i]) = Norm(f, a)
Dedup(f, list) == FoldLeft(LAMBDA acc, x : IF InList(f, x, acc) THEN acc ELSE Append(acc, x), <<>>, list)
(* a slice over an array: [nil, arr, off, len, cap] *)
Aliased(x, y) == ~x.nil /\ ~y.nil /\ x.cap > 0 /\ y.cap > 0 /\ x.arr = y.arr /\ x.off + x.cap = y.off + y.cap

(* little-endian 64 bit words *)
RECURSIVE FromWords(_)
FromWords(w) == IF w = <<>> THEN BInt(0) ELSE BAdd(Head(w), BShl(FromWords(Tail(w)), 64))
FitsWords(x) == BCmp(x, BInt(0)) >= 0 /\ BBitLen(x) <= 256
ToWords(x) == [i \in 1..4 |-> BMod(BShr(x, 64 * (i - 1)), BShl(BInt(1), 64))]

(* integer literals: sign, base prefix, digits separated by single underscores; strings are code sequences *)
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
BaseOf(t) == IF Len(t) >= 2 /\ t[1] = 48 THEN
                CASE t[2] \in {120, 88} -> 16 [] t[2] \in {98, 66} -> 2 [] t[2] \in {111, 79} -> 8 [] OTHER -> 8
             ELSE 10
Prefixed(t) == Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {120, 88, 98, 66, 111, 79}
DigitsOf(t) == IF Prefixed(t) THEN SubSeq(t, 3, Len(t)) ELSE IF BaseOf(t) = 8 THEN Tail(t) ELSE t
(* an underscore may follow a prefix or a digit and must be followed by a digit *)
WellFormed(s) ==
  LET t == Unsigned(s)
      b == BaseOf(t)
      d == DigitsOf(t)
      pre == b # 10     \* a prefix or a leading zero precedes
  IN /\ \E i \in DOMAIN d : d[i] # 95
     /\ \A i \in DOMAIN d : /\ d[i] # 95 => Digit(d[i]) < b
                            /\ d[i] = 95 => /\ i < Len(d) /\ d[i + 1] # 95
                                            /\ (i = 1 => pre)
RECURSIVE Evaluate(_, _)
Evaluate(d, b) == IF d = <<>> THEN BInt(0)
                  ELSE IF d[Len(d)] = 95 THEN Evaluate(SubSeq(d, 1, Len(d) - 1), b)
                  ELSE BAdd(BMul(Evaluate(SubSeq(d, 1, Len(d) - 1), b), BInt(b)), BInt(Digit(d[Len(d)])))
ValueOf(s) == LET t == Unsigned(s)
                  v == Evaluate(DigitsOf(t), BaseOf(t))
              IN IF s[1] = 45 THEN BNeg(v) ELSE v

(* fields of a struct: a field is [name, anon, kind, sub]; kind "struct" / "ptr" (to a struct) / other *)
RECURSIVE Flatten(_, _), FlattenFrom(_, _, _)
FlattenFrom(fs, prefix, i) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i]
           ix == Append(prefix, i - 1)
       IN <<[name |-> f.name, index |-> ix, anon |-> f.anon]>>
          \o (IF f.anon /\ f.kind = "struct" THEN Flatten(f.sub, ix) ELSE <<>>)
          \o FlattenFrom(fs, prefix, i + 1)
Flatten(fs, prefix) == FlattenFrom(fs, prefix, 1)
RECURSIVE HasPtr(_)
HasPtr(fs) == \E i \in DOMAIN fs : fs[i].anon /\ (fs[i].kind = "ptr" \/ (fs[i].kind = "struct" /\ HasPtr(fs[i].sub)))

(* types: [k |-> kind, name |-> "" or a name, len, of |-> <<element type>>] *)
RECURSIVE TypeName(_)
TypeName(t) == IF t.name # "" THEN t.name
               ELSE CASE t.k = "ptr" -> "*" \o TypeName(t.of[1])
                      [] t.k = "array" -> "[" \o ToString(t.len) \o "]" \o TypeName(t.of[1])
                      [] t.k = "slice" -> "[]" \o TypeName(t.of[1])
                      [] OTHER -> "<<type with unknown name>>"
Nilable(t) == t.k \in {"interface", "ptr", "chan", "func", "slice", "map"}
(* assignability between the parameter types used; error values: E (implements error) *)
Assignable(a, b) == a = b \/ b = "any" \/ (b = "error" /\ a \in {"E", "*E"}) \/ (b = "Stringer" /\ a \in {"*S"})
MethodFits(ms, name, ins, outs) ==
  \E i \in DOMAIN ms : /\ ms[i].name = name /\ Len(ms[i].ins) = Len(ins) /\ Len(ms[i].outs) = Len(outs)
                       /\ \A j \in DOMAIN ins : Assignable(ins[j], ms[i].ins[j])
                       /\ \A j \in DOMAIN outs : Assignable(ms[i].outs[j], outs[j])
=============================================================================
