---------------------------- MODULE LogFormatMC ----------------------------
(* Every format put together from up to DEPTH atoms: the decoding and expansion of LogFormat against
   independent definitions that look at one position at a time. *)
EXTENDS LogFormat, Json
CONSTANTS DEPTH, EMIT
VARIABLES f, n
vars == <<f, n>>
Atoms == {<<BS>>, <<110>>, <<120>>, <<49>>, <<98>>, <<123>>, <<125>>, <<37>>,
          <<123>> \o TName \o <<125>>, TMessage \o <<125>>, <<BS, 120, 49, 98>>}
Init == f = <<>> /\ n = 0
Next == n < DEPTH /\ n' = n + 1 /\ \E a \in Atoms : f' = f \o a
Spec == Init /\ [][Next]_vars

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Dec2(_, _)
Dec2(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # BS THEN <<s[i]>> \o Dec2(s, i + 1)
  ELSE IF At(s, i + 1) = 120 /\ At(s, i + 2) = 49 /\ At(s, i + 3) = 98 THEN <<27>> \o Dec2(s, i + 4)
  ELSE IF At(s, i + 1) \in {97, 98, 110, 114, 116} THEN <<Simple(s[i + 1])>> \o Dec2(s, i + 2)
  ELSE SubSeq(s, i, Min2(i + 1, Len(s))) \o Dec2(s, i + 2)
DecodeRight == Decode(f) = Dec2(f, 1)

X == [sev |-> 30, name |-> <<78>>, msg |-> <<123, 110>>, ts |-> [i \in 1 .. 19 |-> 48], loc |-> FALSE, func |-> NULL, file |-> NULL, line |-> <<>>]
(* the known token that starts at position i, if any *)
TokenAt(s, i) == {t \in Tokens9 : s[i] = 123 /\ SubSeq(s, i + 1, Min2(i + Len(t) + 1, Len(s))) = t \o <<125>>}
RECURSIVE Exp2(_, _)
Exp2(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF TokenAt(s, i) = {} THEN <<s[i]>> \o Exp2(s, i + 1)
  ELSE LET t == CHOOSE t \in TokenAt(s, i) : TRUE IN Value(t, X) \o Exp2(s, i + Len(t) + 2)
ExpandRight == Expand(Pieces(f, 1), X) = Exp2(f, 1)
(* pieces, put back together, are the format *)
RECURSIVE Glue(_)
Glue(p) == IF p = <<>> THEN <<>> ELSE (IF p[1].tok THEN <<123>> \o p[1].t \o <<125>> ELSE p[1].t) \o Glue(Tail(p))
Lossless == Glue(Pieces(f, 1)) = f
LineEnds == LET l == Line(Pieces(Decode(f), 1), X, TRUE) IN
  l[Len(l)] = 10 /\ SubSeq(l, 1, 5) = Colour(30) /\ SubSeq(l, Len(l) - 4, Len(l) - 1) = Reset
=============================================================================
