------------------------------- MODULE FeSer -------------------------------
(***************************************************************************)
(* Serialization of numbers to byte streams.  A number occupies NB bytes   *)
(* of BB bits in either byte order; up to MaxPre prefix bits may be put    *)
(* into its most significant bits.  Field elements are residues below Mod; *)
(* wide integers (kind "u") may be any NB*BB-bit number.                   *)
(*                                                                         *)
(* State: regs (values), a writer w = [bytes, cap, late] accepting cap     *)
(* bytes in all (late: the call that completes still reports a fault),     *)
(* and a reader r = [data, pos, end] that delivers data and then ends with *)
(* "eof" or "fault".                                                       *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC, SequencesExt

CONSTANTS Mod, NB, BB, MaxPre
Zero == "0"
One == "1"
Bits == NB * BB
Byte == BShl(One, BB)

Least(a, b) == IF a < b THEN a ELSE b

(* most significant byte first *)
Msb(v) == [i \in 1..NB |-> BToInt(BMod(BShr(v, BB * (NB - i)), Byte))]
Image(v, be) == IF be THEN Msb(v) ELSE Reverse(Msb(v))
Value(bytes, be) == FoldLeft(LAMBDA acc, b : BAdd(BShl(acc, BB), BInt(b)), Zero, IF be THEN bytes ELSE Reverse(bytes))

Fits(v, pl) == BLt(v, BShl(One, Bits - pl))
WithPrefix(v, pb, pl) == BAdd(v, BShl(BInt(pb), Bits - pl))
PrefixOf(v, pl) == BToInt(BShr(v, Bits - pl))
Without(v, pl) == BMod(v, BShl(One, Bits - pl))

(* ---- writing *)
Part(n) == n # 0 /\ n # NB
OkW == [err |-> "", n |-> 0, part |-> FALSE, add |-> <<>>]

SerOutcome(v, pb, pl, be, w) ==
  IF ~Fits(v, pl) THEN [OkW EXCEPT !.err = "fit"]
  ELSE LET img == Image(WithPrefix(v, pb, pl), be)
           n == Least(NB, w.cap - Len(w.bytes))
       IN IF n = NB
          THEN [OkW EXCEPT !.n = NB, !.add = img, !.err = IF w.late THEN "fault" ELSE ""]
          ELSE [err |-> "fault", n |-> n, part |-> Part(n), add |-> SubSeq(img, 1, n)]

(* writing to a byte slice: all or nothing *)
SliceOutcome(v, pb, pl, be, len) ==
  IF ~Fits(v, pl) THEN [OkW EXCEPT !.err = "fit"]
  ELSE IF len < NB THEN [OkW EXCEPT !.err = IF len = 0 THEN "eof" ELSE "ueof"]
  ELSE [OkW EXCEPT !.n = NB, !.add = Image(WithPrefix(v, pb, pl), be)]

(* ---- reading *)
Fail(err, n, r) == [err |-> err, n |-> n, part |-> Part(n), seen |-> SubSeq(r.data, r.pos + 1, r.pos + n), pre |-> 0, upd |-> FALSE, v |-> Zero]

Avail(r) == Len(r.data) - r.pos

Short(r) == LET n == Avail(r) IN Fail(IF r.end = "fault" THEN "fault" ELSE IF n = 0 THEN "eof" ELSE "ueof", n, r)

Take(bytes, pl, be, kind, n, r) ==
  LET raw == Value(bytes, be)
      v == Without(raw, pl)
      nonnorm == kind # "u" /\ BLe(Mod, v)
  IN [err |-> IF nonnorm THEN "nonnorm" ELSE "", n |-> n, part |-> FALSE, seen |-> bytes,
      pre |-> PrefixOf(raw, pl), upd |-> TRUE, v |-> IF kind = "u" THEN v ELSE BMod(v, Mod)]

Next32(r) == SubSeq(r.data, r.pos + 1, r.pos + NB)

(* mode "get": return the prefix; the set of allowed outcomes *)
GetOutcomes(r, pl, be, kind) ==
  IF pl > MaxPre THEN { Fail("len", 0, r) }
  ELSE IF Avail(r) < NB THEN { Short(r) }
  ELSE { Take(Next32(r), pl, be, kind, NB, r) }

(* mode "exp": the prefix must be pb.  Big endian readers may stop after the first byte. *)
ExpOutcomes(r, pb, pl, be, kind) ==
  LET whole == IF Avail(r) < NB THEN Short(r)
               ELSE LET t == Take(Next32(r), pl, be, kind, NB, r) IN
                    IF t.pre = pb THEN t ELSE Fail("mismatch", NB, r)
      early == IF be /\ Avail(r) >= 1 /\ BToInt(BShr(BInt(r.data[r.pos + 1]), BB - pl)) # pb
               THEN { Fail("mismatch", 1, r) } ELSE {}
  IN {whole} \cup early

Outcomes(r, o) == IF o.mode = "exp" THEN ExpOutcomes(r, o.pb, o.pl, o.be, o.kind) ELSE GetOutcomes(r, o.pl, o.be, o.kind)
=============================================================================
