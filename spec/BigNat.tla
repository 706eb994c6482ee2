------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Arbitrary size integers for TLC, written as (signed) lower-case hex     *)
(* strings.  TLC's own integers have 32 bits, the system under study works *)
(* with 256 and 512 bits.  Every operator is overridden by BigNat.java     *)
(* (java.math.BigInteger); the definitions here only state the meaning.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Meaning(x) == CHOOSE y \in {} : x = y       \* placeholder: all operators below are overridden

BAdd(a, b) == Meaning(<<"a + b", a, b>>)
BSub(a, b) == Meaning(<<"a - b", a, b>>)
BMul(a, b) == Meaning(<<"a * b", a, b>>)
BNeg(a) == Meaning(<<"-a", a>>)
BAbs(a) == Meaning(<<"|a|", a>>)
BMod(a, m) == Meaning(<<"least non-negative residue", a, m>>)
BDiv(a, m) == Meaning(<<"floor division", a, m>>)
BCmp(a, b) == Meaning(<<"-1, 0, 1", a, b>>)
BLt(a, b) == Meaning(<<"a < b", a, b>>)
BLe(a, b) == Meaning(<<"a <= b", a, b>>)
BShl(a, n) == Meaning(<<"a * 2^n", a, n>>)
BShr(a, n) == Meaning(<<"floor(a / 2^n)", a, n>>)
BBit(a, n) == Meaning(<<"bit n of a", a, n>>)
BBitLen(a) == Meaning(<<"bit length", a>>)
BInt(n) == Meaning(<<"big integer from a TLC integer", n>>)
BToInt(a) == Meaning(<<"TLC integer from a big integer", a>>)
BPowMod(a, e, m) == Meaning(<<"a^e mod m", a, e, m>>)
BAddMod(a, b, m) == Meaning(<<"a + b mod m", a, b, m>>)
BSubMod(a, b, m) == Meaning(<<"a - b mod m", a, b, m>>)
BMulMod(a, b, m) == Meaning(<<"a * b mod m", a, b, m>>)
BInvMod(a, m) == Meaning(<<"a^-1 mod m", a, m>>)
BSqrtMod(a, m) == Meaning(<<"smaller square root of a modulo the odd prime m, or the empty string", a, m>>)
BDec(a) == Meaning(<<"decimal string", a>>)
BFromBytes(s) == Meaning(<<"big endian value of a sequence of bytes", s>>)
BToBytes(a, n) == Meaning(<<"n big endian bytes", a, n>>)
=============================================================================
