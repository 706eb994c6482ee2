----------------------------- MODULE ErrTmplModel -----------------------------
(***************************************************************************)
(* All templates of up to MaxLen blocks.  Checked for each of them, in     *)
(* several chains of errors:                                               *)
(*  - the recursive parser accepts exactly the templates derivable in the  *)
(*    grammar (Derivable is the grammar, read as a definition);            *)
(*  - malformed templates show an error indication, base error and data;   *)
(*  - validators that report no problem guarantee a message without        *)
(*    indication of anything missing;                                      *)
(*  - escaping makes every text literal.                                   *)
(***************************************************************************)
EXTENDS ErrTmpl
CONSTANT MaxLen

\* values 1,2 print as <<48+id>>; verbs are shown, too
MFmtVal(X, v, f) == <<48 + v>> \o f
MFmtMap(X, m, f) == <<91, 48 + Size(m), 93>>

Blocks == <<"a", "A", "%", "$", "{", "}", "%!", "$w", "%w", "m>0", "\\%", "$!">>
Code == [x \in {Blocks[i] : i \in DOMAIN Blocks} |->
  CASE x = "a" -> <<97>> [] x = "A" -> <<65>> [] x = "%" -> <<37>> [] x = "$" -> <<36>> [] x = "{" -> <<123>> [] x = "}" -> <<125>>
    [] x = "%!" -> <<37, 33>> [] x = "$!" -> <<36, 33>> [] x = "$w" -> <<36, 119>> [] x = "%w" -> <<37, 119>>
    [] x = "m>0" -> NonEmpty [] x = "\\%" -> <<92, 37>>]
Texts == {"a", "A", "m>0", "\\%"}
RECURSIVE Cat(_)
Cat(b) == IF b = <<>> THEN <<>> ELSE Code[Head(b)] \o Cat(Tail(b))

\* the grammar as a definition, on blocks
IsText(s) == \A i \in DOMAIN s : s[i] \in Texts
Nm(s) == s # <<>> /\ s[1] = "A" /\ \A i \in DOMAIN s : s[i] \in {"a", "A"}
Verb(s) == \A i \in DOMAIN s : s[i] \in {"a", "A", "m>0"}
RECURSIVE Derivable(_)
Item(s) == \/ Len(s) = 1 /\ s[1] \in Texts \cup {"%w", "$w"}
           \/ /\ Len(s) >= 4 /\ s[1] \in {"%", "$"} /\ s[Len(s)] = "}"
              /\ \E k \in 2..(Len(s) - 2) : s[k] = "{" /\ Verb(SubSeq(s, 2, k - 1)) /\ Nm(SubSeq(s, k + 1, Len(s) - 1))
           \/ /\ Len(s) >= 4 /\ s[1] \in {"%!", "$!"} /\ s[2] = "m>0" /\ s[3] = "{" /\ s[Len(s)] = "}"
              /\ Derivable(SubSeq(s, 4, Len(s) - 1))
Derivable(s) == s = <<>> \/ \E k \in 1..Len(s) : Item(SubSeq(s, 1, k)) /\ Derivable(SubSeq(s, k + 1, Len(s)))
\* %% is an escape: such blocks do not concatenate freely
Free(s) == \A i \in 1..(Len(s) - 1) : ~(s[i] = "%" /\ s[i + 1] \in {"%", "%!", "%w"})

VARIABLE t
Init == t = <<>>
Next == \E b \in {Blocks[i] : i \in DOMAIN Blocks} : Len(t) < MaxLen /\ t' = Append(t, b)
Spec == Init /\ [][Next]_t

T1 == Template(Cat(t))
Fn(s) == [x \in s |-> 1]
NA == <<65>>
EWD(own, base, tm) == [kind |-> "ewd", ns |-> tm.ns, bad |-> tm.bad, own |-> own, base |-> base]
Chains ==
  LET p == [kind |-> "plain", msg |-> <<112>>]
      thru(b, w) == EWD(Fn({}), b, Template(w))
  IN { [E |-> <<p, EWD(o, b, T1), thru(2, w)>>] :
        o \in {Fn({}), Fn({NA})}, b \in {0, 1}, w \in {<<36, 119>>, <<37, 119>>} }

Agree == Free(t) => (T1.bad <=> ~Derivable(t))
Sub(ps, qs) == \E i \in 0..(Len(ps) - Len(qs)) : SubSeq(ps, i + 1, i + Len(qs)) = qs
Shown(ps, s) == \E i \in DOMAIN ps : ps[i].w = "lit" /\ ps[i].s = s
Reported == \A X \in Chains : \A k \in {2, 3} : \A pa \in {None, Pass(Fn({})), Pass(Fn({NA}))} :
   LET m == Msg(X, k, pa) IN
   /\ X.E[2].bad => /\ Indicates(m)
                    /\ X.E[2].base = 1 => Shown(m, <<112>>)
                    /\ Size(X.E[2].own) > 0 => Shown(m, MFmtMap(X, X.E[2].own, <<VV>>))
                    /\ ~OkFinal(X, k) /\ ~OkBase(X, k)
   /\ OkParams(X, k, pa) => ~Indicates(m)
   /\ (\A i \in DOMAIN t : t[i] # "$!") => (OkFinal(X, k) => OkBase(X, k))
RECURSIVE Escape(_)
Escape(c) == IF c = <<>> THEN <<>>
             ELSE (IF Head(c) \in {PC, DL, OB, CB, BS} THEN <<BS, Head(c)>> ELSE <<Head(c)>>) \o Escape(Tail(c))
Escaped == LET c == Cat(t) p == Template(Escape(c)) IN ~p.bad /\ (IF c = <<>> THEN p.ns = <<>> ELSE p.ns = <<Str(c)>>)
=============================================================================
