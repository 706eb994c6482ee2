------------------------------- MODULE Endian -------------------------------
(***************************************************************************)
(* Positional byte strings.  Put(mem, off, v, n, msb) writes number v as n *)
(* bytes (base 2^8, or 2^BB in small instances) at offset off of memory    *)
(* mem; Take reads back.  An order object is TRUE (most significant byte   *)
(* first) or FALSE.                                                        *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets
CONSTANT BB     \* bits per byte
ByteAt(v, i) == BToInt(BMod(BShr(v, BB * i), BShl(BInt(1), BB)))       \* i-th least significant byte
Place(n, i, msb) == IF msb THEN n - i ELSE i - 1                        \* significance of the i-th byte (from 1) of n
Encode(v, n, msb) == [i \in 1..n |-> ByteAt(v, Place(n, i, msb))]
RECURSIVE Sum(_, _, _)
Sum(s, msb, i) == IF i > Len(s) THEN BInt(0) ELSE BAdd(BShl(BInt(s[i]), BB * Place(Len(s), i, msb)), Sum(s, msb, i + 1))
Decode(s, msb) == Sum(s, msb, 1)
Put(mem, off, v, n, msb) == [j \in DOMAIN mem |-> IF j > off /\ j <= off + n THEN Encode(v, n, msb)[j - off] ELSE mem[j]]
Take(mem, off, n, msb) == Decode(SubSeq(mem, off + 1, off + n), msb)
(* what an order object may be set to *)
Accepted(kind) == kind \in {"LE", "BE", "stdLE", "stdBE"}
Order(kind) == kind \in {"BE", "stdBE"}
(* bit headers *)
HeaderOK(bits, len) == len <= 8 /\ bits < 2^len
=============================================================================
