----------------------------- MODULE EndianModel -----------------------------
(* Small bytes: all numbers, memories, orders; and all histories of header operations over short bit strings. *)
EXTENDS Endian, TLC
VARIABLES mem, msb, hd, last
vars == <<mem, msb, hd, last>>
N == 3
Mems == [1..N + 1 -> 0..(2^BB - 1)]
Values(n) == 0..(2^(BB * n) - 1)
Init == mem \in Mems /\ msb \in BOOLEAN /\ hd = <<0, 0>> /\ last = "init"
Write == \E n \in 1..N, off \in 0..1 : \E v \in Values(n) :
           off + n <= Len(mem) /\ mem' = Put(mem, off, BInt(v), n, msb) /\ last' = "put" /\ UNCHANGED <<msb, hd>>
           /\ Assert(Take(mem', off, n, msb) = BInt(v), <<"round trip", mem, v, n, off>>)
           /\ Assert(Take(mem', off, n, ~msb) = Decode([i \in 1..n |-> mem'[off + n + 1 - i]], msb), "reversal")
           /\ Assert(\A j \in DOMAIN mem : (j <= off \/ j > off + n) => mem'[j] = mem[j], "frame")
Header == \E b \in 0..15, n \in 0..9 : /\ hd' = (IF HeaderOK(b, n) THEN <<b, n>> ELSE hd) /\ last' = "header" /\ UNCHANGED <<mem, msb>>
          /\ mem = [i \in 1..N + 1 |-> 0]
Next == last # "put" /\ (Write \/ Header)
Spec == Init /\ [][Next]_vars
Unique == \A n \in 1..N : Encode(Take(mem, 0, n, msb), n, msb) = SubSeq(mem, 1, n)
HeaderValid == hd[2] <= 8 /\ hd[1] < 2^hd[2]
=============================================================================
