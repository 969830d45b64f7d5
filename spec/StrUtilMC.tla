----------------------------- MODULE StrUtilMC -----------------------------
(* The laws the definitions of StrUtil obey, checked on every small input; the same inputs are
   printed and replayed into the code. *)
EXTENDS StrUtil, Json
CONSTANTS SLEN, FLEN, TLEN, EMIT
VARIABLE call
D == 47
SeqsOver(A, n) == UNION {[1 .. k -> A] : k \in 0 .. n}
S3 == SeqsOver({97, 98, D}, SLEN)
AB == SeqsOver({97, 98}, SLEN)
Cases == SeqsOver({65, 97, 66, 98, 95}, 2)
Arg == {<<>>, <<45>>, <<45, 97>>, <<45, 97, 98>>}
Calls ==
  [op : {"Split", "SplitLast"}, str : S3 \cup {NULL}, delim : {D}]
    \cup [op : {"Find", "FindN"}, str : SeqsOver({97, 98}, SLEN), c : {97}]
    \cup [op : {"Repl"}, str : AB, from : SeqsOver({97, 98}, FLEN), to : SeqsOver({97, 98}, TLEN)]
    \cup [op : {"NDup"}, str : SeqsOver({97}, 3) \cup {NULL}, n : 0 .. 4]
    \cup [op : {"Case"}, a : Cases, b : Cases]
    \cup [op : {"CaseN"}, a : Cases, b : Cases, n : 0 .. 3]
    \cup [op : {"Cli"}, opt : Arg, args : SeqsOver(Arg, 3)]
Init == call \in Calls
Next == EMIT /\ PrintT(ToJson(<<"s", call, "s">>)) /\ FALSE /\ UNCHANGED call
Spec == Init /\ [][Next]_call

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
NotD(s) == SelectSeq(s, LAMBDA x : x # D)
SplitLaws == call.op = "Split" /\ call.str # NULL => LET s == call.str t == Tokens(s, D) IN
  /\ \A i \in 1 .. Len(t) : t[i] # <<>> /\ D \notin Range(t[i])
  /\ Flat(t) = NotD(s)
  /\ Len(t) = Cardinality({i \in 1 .. Len(s) : s[i] # D /\ (i = 1 \/ s[i - 1] = D)})
SplitLastLaws == call.op = "SplitLast" /\ call.str # NULL => LET s == call.str t == SplitLast(s, D) IN
  /\ Len(t) <= 2
  /\ (Len(t) = 2 => D \notin Range(t[2]))
  /\ NotD(Flat(t)) = NotD(s)
(* the position found is the only one before (after) which there is none *)
FindLaws == call.op = "Find" => LET s == call.str f == FirstAt(s, call.c) l == LastAt(s, call.c) IN
  /\ (f = -1) = (l = -1) /\ (f = -1) = (call.c \notin Range(s))
  /\ (f # -1 => s[f + 1] = call.c /\ s[l + 1] = call.c /\ f <= l)
  /\ (f # -1 => \A i \in 1 .. f : s[i] # call.c)
  /\ (f # -1 => \A i \in l + 2 .. Len(s) : s[i] # call.c)
ReplLaws == call.op = "Repl" => LET s == call.str f == call.from t == call.to r == Replace(s, f, t) IN
  /\ (f = t => r = s)
  /\ (f = <<>> \/ Matches(s, f) = {} => r = s)
  /\ (f # <<>> /\ t = <<>> => Len(r) <= Len(s) /\ (Len(s) - Len(r)) % Len(f) = 0)
  /\ (Len(f) = 1 => r = Flat([i \in 1 .. Len(s) |-> IF s[i] = f[1] THEN t ELSE <<s[i]>>]))
CaseLaws == call.op = "Case" => LET a == call.a b == call.b IN
  /\ CaseCmp(a, b) = -CaseCmp(b, a)
  /\ (CaseCmp(a, b) = 0) = (LowerStr(a) = LowerStr(b))
CliLaws == call.op = "Cli" =>
  /\ (OptValue(call) # NULL => OptPlaces(call) # {})
  /\ (Cardinality(OptPlaces(call)) = 1 /\ call.args[Len(call.args)] = call.opt => OptValue(call) = NULL)
SevLaws == \A i, j \in 1 .. 6 : i # j => SevNames[i] # SevNames[j]
=============================================================================
