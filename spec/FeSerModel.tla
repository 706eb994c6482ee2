----------------------------- MODULE FeSerModel -----------------------------
(***************************************************************************)
(* Small exhaustive instance: numbers of NB bytes of BB bits.  A sender    *)
(* writes values with prefixes into a writer of limited capacity, then a   *)
(* receiver reads the result back in any mode; separately, every stream up *)
(* to NB+1 bytes is offered to the receiver.                               *)
(***************************************************************************)
EXTENDS FeSer
VARIABLES w, r, sent, got, phase, last
vars == <<w, r, sent, got, phase, last>>

Values == { BInt(k) : k \in 0..(BToInt(Mod) - 1) }
All == { BInt(k) : k \in 0..(2^Bits - 1) }
B == 0..(2^BB - 1)
Streams == UNION { [1..n -> B] : n \in 0..(NB + 1) }
Pfx == { <<pb, pl>> \in (0..(2^MaxPre - 1)) \X (0..MaxPre) : pb < 2^pl }
Quiet == [kind |-> "f", mode |-> "get", pb |-> 0, pl |-> 0, be |-> TRUE]

Init ==
  /\ sent = <<>> /\ got = <<>> /\ last = [o |-> Quiet, x |-> OkW]
  /\ \/ phase = "write" /\ w \in { [bytes |-> <<>>, cap |-> c, late |-> lt] : c \in 0..(2 * NB), lt \in BOOLEAN }
        /\ r = [data |-> <<>>, pos |-> 0, end |-> "eof"]
     \/ phase = "read" /\ w = [bytes |-> <<>>, cap |-> 0, late |-> FALSE]
        /\ r \in { [data |-> s, pos |-> 0, end |-> en] : s \in Streams, en \in {"eof", "fault"} }

Write == /\ phase = "write" /\ Len(sent) < 2
         /\ \E v \in Values, p \in Pfx, be \in BOOLEAN :
              LET x == SerOutcome(v, p[1], p[2], be, w) IN
              /\ (\A i \in DOMAIN sent : sent[i].be = be)
              /\ w' = [w EXCEPT !.bytes = @ \o x.add]
              /\ sent' = Append(sent, [v |-> v, p |-> p, be |-> be, x |-> x])
              /\ last' = [o |-> Quiet, x |-> OkW]
         /\ UNCHANGED <<r, got, phase>>
Turn == /\ phase = "write" /\ Len(sent) > 0 /\ phase' = "reread"
        /\ r' = [data |-> w.bytes, pos |-> 0, end |-> "eof"]
        /\ UNCHANGED <<w, sent, got, last>>
Reread == /\ phase = "reread" /\ Len(got) < Len(sent)
          /\ LET s == sent[Len(got) + 1] IN
             \E mode \in {"get", "exp"} :
               LET o == [kind |-> "f", mode |-> mode, pb |-> s.p[1], pl |-> s.p[2], be |-> s.be] IN
               \E x \in Outcomes(r, o) :
                 /\ got' = Append(got, x) /\ r' = [r EXCEPT !.pos = @ + x.n] /\ last' = [o |-> o, x |-> x]
          /\ UNCHANGED <<w, sent, phase>>
Read == /\ phase = "read" /\ Len(got) < 1
        /\ \E mode \in {"get", "exp"}, p \in Pfx \cup {<<0, MaxPre + 1>>}, be \in BOOLEAN, kind \in {"f", "u"} :
             LET o == [kind |-> kind, mode |-> mode, pb |-> p[1], pl |-> p[2], be |-> be] IN
             /\ mode = "exp" => p[2] <= MaxPre
             /\ \E x \in Outcomes(r, o) :
                  got' = Append(got, x) /\ r' = [r EXCEPT !.pos = @ + x.n] /\ last' = [o |-> o, x |-> x]
        /\ UNCHANGED <<w, sent, phase>>
Next == Write \/ Turn \/ Reread \/ Read
Spec == Init /\ [][Next]_vars

(* what was written completely is read back: value and prefix, leaving the rest of the stream *)
RoundTrip == \A i \in DOMAIN got :
   (phase = "reread" /\ (\A j \in 1..i : sent[j].x.n = NB)) => (got[i].err = "" /\ got[i].v = sent[i].v /\ got[i].pre = sent[i].p[1] /\ got[i].n = NB)
(* what was accepted is the canonical image of the element and the prefix *)
Canonical == LET x == last.x IN LET o == last.o IN
   (phase = "read" /\ Len(got) = 1 /\ x.err = "") =>
     /\ x.seen = SerOutcome(x.v, x.pre, o.pl, o.be, [bytes |-> <<>>, cap |-> NB, late |-> FALSE]).add
     /\ o.kind = "f" => BLt(x.v, Mod)
     /\ o.mode = "exp" => x.pre = o.pb
Counts == /\ r.pos <= Len(r.data)
          /\ \A i \in DOMAIN got : LET x == got[i] IN
               /\ x.n = Len(x.seen) /\ (x.err = "" => x.n = NB) /\ x.n <= NB
               /\ (x.err # "" /\ x.n \notin {0, NB}) = (x.part)
               /\ x.upd = (x.err \in {"", "nonnorm"})
          /\ \A i \in DOMAIN sent : LET x == sent[i].x IN x.n = Len(x.add) /\ (x.err = "" => x.n = NB) /\ (x.err = "fit" => x.n = 0)
          /\ Len(w.bytes) <= w.cap
(* every stream holding a full number is either accepted or refused for a stated reason *)
Total == \A i \in DOMAIN got : got[i].err \in {"", "eof", "ueof", "fault", "mismatch", "nonnorm", "len"}
=============================================================================
