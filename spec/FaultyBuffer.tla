---------------------------- MODULE FaultyBuffer ----------------------------
(***************************************************************************)
(* A buffer whose reader and writer fail after thr bytes.  State: buf (the *)
(* unread bytes), rd / wr (bytes moved so far), rf / wf (fault reported).  *)
(* Every operation is a function to [st, n, err, data].                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh == [buf |-> <<>>, rd |-> 0, wr |-> 0, rf |-> FALSE, wf |-> FALSE]
Least(a, b) == IF a < b THEN a ELSE b
Result(s, n, err, data) == [st |-> s, n |-> n, err |-> err, data |-> data]
Read(s, thr, len) ==
  IF len = 0 THEN Result(s, 0, "nil", <<>>)
  ELSE IF s.rf THEN Result(s, 0, "fault", <<>>)
  ELSE LET rem == thr - s.rd
           L == Least(len, rem)
       IN IF L > 0 /\ s.buf = <<>> THEN Result(s, 0, "EOF", <<>>)
          ELSE LET n == Least(L, Len(s.buf))
                   fault == len > rem /\ n = L
               IN Result([s EXCEPT !.buf = SubSeq(s.buf, n + 1, Len(s.buf)), !.rd = @ + n, !.rf = fault],
                         n, IF fault THEN "fault" ELSE "nil", SubSeq(s.buf, 1, n))
Write(s, thr, data) ==
  LET len == Len(data)
      rem == thr - s.wr
      L == Least(len, rem)
  IN IF len = 0 THEN Result(s, 0, "nil", <<>>)
     ELSE IF s.wf THEN Result(s, 0, "fault", <<>>)
     ELSE Result([s EXCEPT !.buf = @ \o SubSeq(data, 1, L), !.wr = @ + L, !.wf = len > rem], L, IF len > rem THEN "fault" ELSE "nil", <<>>)
Reset(s) == Fresh
SetContent(data) == [Fresh EXCEPT !.buf = data]
=============================================================================
