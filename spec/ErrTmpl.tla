------------------------------- MODULE ErrTmpl -------------------------------
(***************************************************************************)
(* The template language of errors with data: tokens, grammar, messages    *)
(* and validators, for chains of errors.  Texts are sequences of code      *)
(* points.  The way package fmt prints a single value is a parameter of    *)
(* the specification (FmtVal / FmtMap); everything else is defined here.   *)
(*                                                                         *)
(* A message is a sequence of pieces [w, s]:                               *)
(*   "lit"  the text s                                                     *)
(*   "mis"  the text s, indicating something missing                       *)
(*   "err"  some visible error indication <...>, wording unspecified       *)
(*   "any"  unspecified text (headings of diagnostics)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS FmtVal(_, _, _),   \* (context, value id, verb) -> text
          FmtMap(_, _, _)    \* (context, parameter map, verb) -> text

PC == 37   \* %
DL == 36   \* $
OB == 123  \* {
CB == 125  \* }
BS == 92   \* backslash
EX == 33   \* !
WW == 119  \* w
VV == 118  \* v

----------------------------------------------------------------------------
(* bytes that are not valid UTF-8 are given as -1; every maximal run of them counts as one replacement character *)
RECURSIVE Utf(_, _, _)
Utf(c, i, a) == IF i > Len(c) THEN a
                ELSE IF c[i] # -1 THEN Utf(c, i + 1, Append(a, c[i]))
                ELSE IF i > 1 /\ c[i - 1] = -1 THEN Utf(c, i + 1, a)
                ELSE Utf(c, i + 1, Append(a, 65533))

T(k, s) == [k |-> k, s |-> s]
AddStr(a, s) == IF a # <<>> /\ a[Len(a)].k = "str" THEN [a EXCEPT ![Len(a)].s = @ \o s] ELSE Append(a, T("str", s))

RECURSIVE Tk(_, _, _)
Tk(c, i, a) ==
  IF i > Len(c) THEN Append(a, T("end", <<>>))
  ELSE LET x == c[i]
           y == IF i < Len(c) THEN c[i + 1] ELSE -2
       IN IF x = BS /\ y \in {PC, DL, OB, CB, BS} THEN Tk(c, i + 2, AddStr(a, <<y>>))
          ELSE IF x = PC /\ y = PC THEN Tk(c, i + 2, AddStr(a, <<PC>>))
          ELSE IF x = PC /\ y = EX THEN Tk(c, i + 2, Append(a, T("%!", <<PC, EX>>)))
          ELSE IF x = DL /\ y = EX THEN Tk(c, i + 2, Append(a, T("$!", <<DL, EX>>)))
          ELSE IF x = PC /\ y = WW THEN Tk(c, i + 2, Append(a, T("%w", <<PC, WW>>)))
          ELSE IF x = DL /\ y = WW THEN Tk(c, i + 2, Append(a, T("$w", <<DL, WW>>)))
          ELSE IF x = PC THEN Tk(c, i + 1, Append(a, T("%", <<PC>>)))
          ELSE IF x = DL THEN Tk(c, i + 1, Append(a, T("$", <<DL>>)))
          ELSE IF x = OB THEN Tk(c, i + 1, Append(a, T("{", <<OB>>)))
          ELSE IF x = CB THEN Tk(c, i + 1, Append(a, T("}", <<CB>>)))
          ELSE Tk(c, i + 1, AddStr(a, <<x>>))
Tokens(c) == Tk(Utf(c, 1, <<>>), 1, <<>>)

----------------------------------------------------------------------------
(* Grammar:  Seq  ::= ( text | %w | $w | %Verb{Name} | $Verb{Name} | %!Cond{Seq} | $!Cond{Seq} )*
   Nodes: str(s), par(d), fmt(d, f, n), cond(d, c, b); in malformed templates also err and open(d, c), a conditional
   that is still open where the error occurs.  From the error on all tokens are literal text. *)
Str(s)  == [t |-> "str", s |-> s]
Bad     == [t |-> "err"]
Open(d, c) == [t |-> "open", d |-> d, c |-> c]

\* result of parsing: status "end" / "close" / "err", position of the next token, nodes
R(st, i, ns) == [st |-> st, i |-> i, ns |-> ns]

RECURSIVE ParseSeq(_, _, _, _)
ParseSeq(tk, i, acc, depth) ==
  LET t == tk[i] IN
  CASE t.k = "str" -> ParseSeq(tk, i + 1, Append(acc, Str(t.s)), depth)
    [] t.k \in {"%w", "$w"} -> ParseSeq(tk, i + 1, Append(acc, [t |-> "par", d |-> t.k = "$w"]), depth)
    [] t.k = "end" -> IF depth = 0 THEN R("end", i, acc) ELSE R("err", i, Append(acc, Bad))
    [] t.k = "}" -> IF depth > 0 THEN R("close", i + 1, acc) ELSE R("err", i + 1, Append(acc, Bad))
    [] t.k = "{" -> R("err", i + 1, Append(acc, Bad))
    [] t.k \in {"%", "$"} ->
         LET n1 == tk[i + 1] IN
         IF n1.k \notin {"str", "{"} THEN R("err", i + 1, acc \o <<Str(t.s), Bad>>)
         ELSE IF n1.k = "str" /\ tk[i + 2].k # "{" THEN R("err", i + 2, acc \o <<Str(t.s), Bad, Str(n1.s)>>)
         ELSE LET f  == IF n1.k = "str" THEN n1.s ELSE <<>>
                  j  == IF n1.k = "str" THEN i + 3 ELSE i + 2
                  nm == tk[j]
              IN IF nm.k # "str" THEN R("err", j, acc \o <<Str(t.s \o f), Bad>>)
                 ELSE IF tk[j + 1].k # "}" THEN R("err", j + 1, acc \o <<Str(t.s \o f \o <<OB>> \o nm.s), Bad>>)
                 ELSE ParseSeq(tk, j + 2,
                        Append(acc, [t |-> "fmt", d |-> t.k = "$", f |-> IF f = <<>> THEN <<VV>> ELSE f, n |-> nm.s]), depth)
    [] t.k \in {"%!", "$!"} ->
         LET n1 == tk[i + 1] IN
         IF n1.k # "str" THEN R("err", i + 1, acc \o <<Str(t.s), Bad>>)
         ELSE IF tk[i + 2].k # "{" THEN R("err", i + 2, acc \o <<Str(t.s), Bad, Str(n1.s)>>)
         ELSE LET r == ParseSeq(tk, i + 3, <<>>, depth + 1) IN
              IF r.st = "close"
              THEN ParseSeq(tk, r.i, Append(acc, [t |-> "cond", d |-> t.k = "$!", c |-> n1.s, b |-> r.ns]), depth)
              ELSE R("err", r.i, acc \o <<Open(t.k = "$!", n1.s)>> \o r.ns)

RECURSIVE Flat(_, _)
Flat(tk, i) == IF i > Len(tk) THEN <<>> ELSE tk[i].s \o Flat(tk, i + 1)

\* the parsed template: its nodes and whether the grammar was violated
Parse(c) == LET tk == Tokens(c)
                r  == ParseSeq(tk, 1, <<>>, 0)
            IN IF r.st = "end" THEN [ns |-> r.ns, perr |-> FALSE]
               ELSE [ns |-> Append(r.ns, Str(Flat(tk, r.i))), perr |-> TRUE]

----------------------------------------------------------------------------
(* conditions on verbs, names and conditions *)
Upper(x)  == x \in 65..90 \/ x \in {196, 916}
Letter(x) == Upper(x) \/ x \in 97..122 \/ x = 95 \/ x \in {233, 955, 19990}
Digit(x)  == x \in 48..57 \/ x = 1635
Exported(n) == n # <<>> /\ Upper(n[1]) /\ \A i \in DOMAIN n : Letter(n[i]) \/ Digit(n[i])
MapNames == { <<33, 109>>, <<33, 109, 97, 112>>, <<33, 112, 97, 114, 97, 109, 115>>,
              <<33, 112, 97, 114, 97, 109, 101, 116, 101, 114, 115>> }    \* !m !map !params !parameters
NonEmpty == <<109, 62, 48>>   \* m>0
IsEmpty  == <<109, 61, 48>>   \* m=0
FmtBad(n) == PC \in {n.f[i] : i \in DOMAIN n.f} \/ (n.n \notin MapNames /\ ~Exported(n.n))
CondBad(c) == c \notin {NonEmpty, IsEmpty}

RECURSIVE AnyBad(_)
AnyBad(ns) == \E i \in DOMAIN ns :
                CASE ns[i].t = "fmt"  -> FmtBad(ns[i])
                  [] ns[i].t = "cond" -> CondBad(ns[i].c) \/ AnyBad(ns[i].b)
                  [] ns[i].t = "open" -> CondBad(ns[i].c)
                  [] OTHER -> FALSE

\* a template together with its verdict
Template(c) == LET p == Parse(c) IN [ns |-> p.ns, bad |-> p.perr \/ AnyBad(p.ns)]

----------------------------------------------------------------------------
(* Errors.  X.E is the list of errors of the episode, E[k] being one of
     [kind "plain", msg]                       an ordinary error
     [kind "wrap", msg, base]                  text msg, then the base error's message (wraps its base)
     [kind "cust", msg, vb, vn, vp]            interpolates by itself; verdicts of its own validators
     [kind "ewd", ns, bad, own, base]          an error with data; own: all its parameters; base = 0: none
   Parameter maps are functions from names to value ids; passed = [nil, m]. *)
None == [nil |-> TRUE, m |-> <<>>]
Pass(m) == [nil |-> FALSE, m |-> m]
Size(m) == Cardinality(DOMAIN m)

Lit(s) == [w |-> "lit", s |-> s]
Mis(s) == [w |-> "mis", s |-> s]
Err    == [w |-> "err", s |-> <<>>]
AnyText    == [w |-> "any", s |-> <<>>]

MISSING == <<33, 60, 109, 105, 115, 115, 105, 110, 103, 32, 118, 97, 108, 117, 101, 62>>   \* !<missing value>
NILBASE == <<WW, 40, 60, 110, 105, 108, 62, 41>>                                           \* w(<nil>)
Sign(d) == IF d THEN <<DL>> ELSE <<PC>>
Holds(c, m) == IF c = NonEmpty THEN Size(m) > 0 ELSE Size(m) = 0
Interpolates(er) == er.kind \in {"ewd", "cust"}

RECURSIVE Msg(_, _, _), Nodes(_, _, _, _, _)
\* message of error k when a parent passes parameters (passed.nil: no parent)
Msg(X, k, passed) ==
  LET er == X.E[k] IN
  CASE er.kind = "plain" -> <<Lit(er.msg)>>
    [] er.kind = "wrap"  -> <<Lit(er.msg)>> \o Msg(X, er.base, None)
    [] er.kind = "cust"  -> IF passed.nil THEN <<Lit(er.msg)>> ELSE <<Lit(er.msg), Lit(FmtMap(X, passed.m, <<VV>>))>>
    [] er.kind = "ewd"   ->
         LET pm == IF passed.nil THEN er.own ELSE passed.m
             m  == Nodes(X, er, er.ns, pm, 1)
         IN IF ~er.bad THEN m
            ELSE m \o (IF er.base # 0 THEN <<AnyText>> \o Msg(X, er.base, None) ELSE <<>>)
                   \o (IF Size(er.own) > 0 THEN <<AnyText, Lit(FmtMap(X, er.own, <<VV>>))>> ELSE <<>>)
                   \o (IF ~passed.nil THEN <<AnyText, Lit(FmtMap(X, passed.m, <<VV>>))>> ELSE <<>>)
Nodes(X, er, ns, pm, i) ==
  IF i > Len(ns) THEN <<>>
  ELSE LET n == ns[i]
           here ==
             CASE n.t = "str" -> <<Lit(n.s)>>
               [] n.t = "err" -> <<Err>>
               [] n.t = "open" -> IF CondBad(n.c) THEN <<Err>> ELSE <<>>
               [] n.t = "cond" ->
                    LET m == IF n.d THEN pm ELSE er.own IN
                    IF CondBad(n.c) THEN <<Err>> \o Nodes(X, er, n.b, pm, 1)
                    ELSE IF Holds(n.c, m) THEN Nodes(X, er, n.b, pm, 1) ELSE <<>>
               [] n.t = "fmt" ->
                    LET m == IF n.d THEN pm ELSE er.own IN
                    IF FmtBad(n) THEN <<Err>>
                    ELSE IF n.n \in MapNames THEN <<Lit(FmtMap(X, m, n.f))>>
                    ELSE IF n.n \in DOMAIN m THEN <<Lit(FmtVal(X, m[n.n], n.f))>>
                    ELSE <<Mis(Sign(n.d) \o n.f \o MISSING)>>
               [] n.t = "par" ->
                    IF er.base = 0 THEN <<Mis(Sign(n.d) \o NILBASE)>>
                    ELSE IF ~n.d THEN Msg(X, er.base, None)
                    ELSE IF Interpolates(X.E[er.base]) THEN Msg(X, er.base, Pass(pm))
                    ELSE <<Err>> \o Msg(X, er.base, None)
       IN here \o Nodes(X, er, ns, pm, i + 1)

----------------------------------------------------------------------------
(* validators: TRUE if no problem is reported *)
RECURSIVE OkBase(_, _), OkParams(_, _, _), OkD(_, _, _), OkP(_, _, _, _)
OkSyntax(X, k) == ~X.E[k].bad
\* the error by itself: what a parent will pass is unknown
OkBase(X, k) == LET er == X.E[k] IN IF er.kind = "cust" THEN er.vb ELSE ~er.bad /\ OkD(X, er, er.ns)
\* given the parameters a parent passes (none: the error's own)
OkParams(X, k, passed) ==
  LET er == X.E[k] IN
  IF er.kind = "cust" THEN IF passed.nil THEN er.vn ELSE er.vp
  ELSE ~er.bad /\ OkP(X, er, er.ns, IF passed.nil THEN er.own ELSE passed.m)
OkFinal(X, k) == OkParams(X, k, None)

OkD(X, er, ns) == \A i \in DOMAIN ns :
  LET n == ns[i] IN
  CASE n.t = "str" -> TRUE
    [] n.t = "fmt" -> n.d \/ n.n \in MapNames \/ n.n \in DOMAIN er.own
    [] n.t = "cond" -> IF n.d \/ Holds(n.c, er.own) THEN OkD(X, er, n.b) ELSE TRUE
    [] n.t = "par" -> /\ er.base # 0
                      /\ IF n.d THEN Interpolates(X.E[er.base]) /\ OkBase(X, er.base)
                         ELSE Interpolates(X.E[er.base]) => OkParams(X, er.base, None)
OkP(X, er, ns, pm) == \A i \in DOMAIN ns :
  LET n == ns[i] IN
  CASE n.t = "str" -> TRUE
    [] n.t = "fmt" -> n.n \in MapNames \/ n.n \in DOMAIN (IF n.d THEN pm ELSE er.own)
    [] n.t = "cond" -> IF Holds(n.c, IF n.d THEN pm ELSE er.own) THEN OkP(X, er, n.b, pm) ELSE TRUE
    [] n.t = "par" -> /\ er.base # 0
                      /\ IF n.d THEN Interpolates(X.E[er.base]) /\ OkParams(X, er.base, Pass(pm))
                         ELSE Interpolates(X.E[er.base]) => OkParams(X, er.base, None)

----------------------------------------------------------------------------
(* does a text match a message? *)
At(got, j, s) == j + Len(s) - 1 <= Len(got) /\ SubSeq(got, j, j + Len(s) - 1) = s
Starts(got, j) == IF At(got, j, <<60>>) THEN j
                  ELSE IF At(got, j, <<PC, EX, 60>>) \/ At(got, j, <<DL, EX, 60>>) THEN j + 2 ELSE 0
RECURSIVE Match(_, _, _, _)
Match(ps, i, got, j) ==
  IF i > Len(ps) THEN j = Len(got) + 1
  ELSE CASE ps[i].w \in {"lit", "mis"} -> At(got, j, ps[i].s) /\ Match(ps, i + 1, got, j + Len(ps[i].s))
         [] ps[i].w = "any" -> \E k \in j..(Len(got) + 1) : Match(ps, i + 1, got, k)
         [] ps[i].w = "err" -> Starts(got, j) # 0 /\ \E k \in j..Len(got) : got[k] = 62 /\ Match(ps, i + 1, got, k + 1)
Matches(ps, got) == Match(ps, 1, got, 1)
Indicates(ps) == \E i \in DOMAIN ps : ps[i].w \in {"mis", "err"}
=============================================================================
