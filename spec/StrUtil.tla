------------------------------ MODULE StrUtil ------------------------------
(* Stateless string utilities (C18), command line and severity text (C23).  The specification is
   the definition of each function; Step says whether a recorded call agrees with it. *)
EXTENDS Common
LOCAL INSTANCE SequencesExt

Init0 == TRUE

(* ---- splitting ---- *)
(* where a byte stands, in order *)
Places(s, c) == {i \in 1 .. Len(s) : s[i] = c}
Ordered(P) == SetToSortSeq(P, LAMBDA x, y : x < y)
(* the texts between the delimiters, less the empty ones *)
Tokens(s, d) ==
  IF s = NULL THEN <<>>
  ELSE LET cut == <<0>> \o Ordered(Places(s, d)) \o <<Len(s) + 1>>
           all == [k \in 1 .. Len(cut) - 1 |-> SubSeq(s, cut[k] + 1, cut[k + 1] - 1)]
       IN SelectSeq(all, LAMBDA t : t # <<>>)

(* one delimiter is dropped at each end; the rest is cut at its last delimiter (and one more
   delimiter before the cut is dropped); without one the text is returned, less a leading delimiter *)
SplitLast(s, d) ==
  IF s = NULL \/ s = <<>> THEN <<>>
  ELSE LET n == Len(s)
           l == IF s[1] = d THEN 1 ELSE 0
           r == IF s[n] = d THEN 1 ELSE 0
           I == {i \in l + 1 .. n - r : s[i] = d}
       IN IF I = {} THEN <<SubSeq(s, l + 1, n)>>
          ELSE LET f == Ordered(I)[Cardinality(I)]
                   x == IF f > l + 1 /\ s[f - 1] = d THEN 1 ELSE 0
               IN <<SubSeq(s, l + 1, f - 1 - x), SubSeq(s, f + 1, n - r)>>

(* ---- finding ---- *)
FirstAt(s, c) == IF s = NULL \/ Places(s, c) = {} THEN -1 ELSE Ordered(Places(s, c))[1] - 1
LastAt(s, c) == IF s = NULL \/ Places(s, c) = {} THEN -1
              ELSE LET P == Ordered(Places(s, c)) IN P[Len(P)] - 1

(* ---- replacing ---- *)
At(s, f, i) == i + Len(f) - 1 <= Len(s) /\ \A k \in 1 .. Len(f) : s[i + k - 1] = f[k]
Matches(s, f) == {i \in 1 .. Len(s) : At(s, f, i)}
(* the chosen matches: the leftmost, then the leftmost after it, ... *)
Chosen(s, f) ==
  FoldLeft(LAMBDA p, i : IF p = <<>> \/ p[Len(p)] + Len(f) <= i THEN Append(p, i) ELSE p, <<>>, Ordered(Matches(s, f)))
Replace(s, f, t) ==
  IF f = <<>> THEN s
  ELSE LET P == Chosen(s, f)
           end == FoldLeft(LAMBDA a, i : [text |-> a.text \o SubSeq(s, a.from, i - 1) \o t, from |-> i + Len(f)],
                           [text |-> <<>>, from |-> 1], P)
       IN end.text \o SubSeq(s, end.from, Len(s))

(* ---- formatting and duplication ---- *)
Bar == <<124>>
FmtText(c) ==
  CASE c.k = 0 -> c.a \o Bar \o Dec(c.num) \o Bar \o c.b
    [] c.k = 1 -> c.a \o c.b
    [] c.k = 2 -> <<>>
    [] c.k = 3 -> c.a \o <<37>>
    [] c.k = 4 -> Dec(c.num)
SnpText(c) == CASE c.k = 0 -> c.a \o <<58>> \o Dec(c.num) [] c.k = 1 -> c.a [] c.k = 2 -> <<>>
Limit(c) == IF c.lim < 0 THEN 2048 ELSE c.lim

(* ---- comparison ignoring case ---- *)
CaseCmp(a, b) == CmpBytes(LowerStr(a), LowerStr(b))
IsAlnum(c) == c \in (48 .. 57) \cup (65 .. 90) \cup (97 .. 122)

(* ---- command line ---- *)
OptPlaces(c) == {i \in 1 .. Len(c.args) : c.args[i] = c.opt}
OptFirst(c) == CHOOSE i \in OptPlaces(c) : \A j \in OptPlaces(c) : i <= j
OptValue(c) == IF OptPlaces(c) = {} \/ OptFirst(c) = Len(c.args) THEN NULL ELSE c.args[OptFirst(c) + 1]

(* ---- severity text ---- *)
SevNames == << <<117,110,115,101,116>>, <<100,101,98,117,103>>, <<105,110,102,111>>,
               <<119,97,114,110>>, <<101,114,114,111,114>>, <<102,97,116,97,108>> >>
SevOf(s) == LET I == {i \in 1 .. 6 : LowerStr(s) = SevNames[i]} IN
            IF I = {} THEN -1 ELSE 10 * ((CHOOSE i \in I : TRUE) - 1)

(* ---- agreement of a recorded call ---- *)
(* a returned text belongs to the allocator, has room for its terminator, and is the expected one;
   a refused allocation may only make the call report failure *)
TextIs(e, x) ==
  /\ e.owned /\ e.fits
  /\ e.out = x \/ (e.refused > 0 /\ e.out = NULL)
Agrees(e) ==
  CASE e.op = "Split" ->
         \/ e.ret = OK /\ e.out = Tokens(e.str, e.delim) /\ e.fini = OK
         \/ e.refused > 0 /\ e.ret = BADALLOC /\ e.fini = OK
    [] e.op = "SplitLast" ->
         \/ e.ret = OK /\ e.out = SplitLast(e.str, e.delim) /\ e.fini = OK
         \/ e.refused > 0 /\ e.ret = BADALLOC /\ e.fini = OK
    [] e.op = "SplitNull" -> e.ret = INVALID
    [] e.op = "Find" -> e.first = FirstAt(e.str, e.c) /\ e.last = LastAt(e.str, e.c)
    [] e.op = "FindN" -> e.first = FirstAt(e.str, e.c) /\ e.last = LastAt(e.str, e.c)
    [] e.op = "Repl" -> TextIs(e, Replace(e.str, e.from, e.to))
    [] e.op = "Dup" -> TextIs(e, e.str)
    [] e.op = "NDup" -> TextIs(e, IF e.str = NULL THEN NULL ELSE Head2(e.str, e.n))
    [] e.op = "Fmt" -> TextIs(e, IF Limit(e) = 0 THEN NULL ELSE Head2(FmtText(e), Limit(e) - 1))
    [] e.op = "FmtNull" -> e.ok
    [] e.op = "Snp" ->
         \/ /\ e.ret = Len(SnpText(e)) /\ e.term
            /\ e.out = IF e.n = 0 THEN NULL ELSE Head2(SnpText(e), e.n - 1)
         \/ Injected(e) /\ e.ret = -1
    [] e.op = "Case" ->
         IF e.a = NULL \/ e.b = NULL THEN e.ret = -1 /\ e.v = 0
         ELSE e.ret = 0 /\ e.v = CaseCmp(e.a, e.b)
    [] e.op = "CaseN" ->
         IF e.a = NULL \/ e.b = NULL THEN e.ret = -1 /\ e.v = 0
         ELSE e.ret = 0 /\ e.v = CaseCmp(Head2(e.a, e.n), Head2(e.b, e.n))
    [] e.op = "CaseNull" -> e.ret = -1 /\ e.ret2 = -1
    [] e.op = "Alnum" -> e.out = IsAlnum(e.c)
    [] e.op = "StrError" -> e.term /\ e.out = Head2(e.full, e.n - 1)
    [] e.op = "Cli" ->
         /\ e.ex = (OptPlaces(e) # {})
         /\ e.val = OptValue(e)       \* texts; arguments may repeat
    [] e.op = "Severity" ->
         IF e.str = NULL THEN e.ret = INVALID /\ e.sev = 1234
         ELSE \/ (IF SevOf(e.str) = -1 THEN e.ret = SEVSTRINVALID /\ e.sev = 1234
                  ELSE e.ret = OK /\ e.sev = SevOf(e.str))
              \/ e.refused > 0 /\ e.ret = BADALLOC /\ e.sev = 1234
    [] e.op = "SevNull" -> e.ret = INVALID /\ e.ret2 = INVALID /\ e.sev = 5
    [] OTHER -> FALSE
Step(st, e) == IF LedgerOk(e) /\ e.live = 0 /\ Agrees(e) THEN {st} ELSE {}
Ops == {"Split", "SplitLast", "SplitNull", "Find", "FindN", "Repl", "Dup", "NDup", "Fmt", "FmtNull",
        "Snp", "Case", "CaseN", "CaseNull", "Alnum", "StrError", "Cli", "Severity", "SevNull"}
=============================================================================
