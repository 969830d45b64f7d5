---------------------------- MODULE StringArray ----------------------------
(* String arrays (property C05): two arrays whose entries are strings or missing (NULL). *)
EXTENDS Common

Slots == {0, 1}
NoArray == [init |-> FALSE, fin |-> FALSE, ent |-> <<>>]
(* finalised: may be initialised or finalised again; nothing is said about resizing it (it may still know its
   allocator, or not) *)
Finalised == [NoArray EXCEPT !.fin = TRUE]
Init0 == [s \in Slots |-> NoArray]
Res(a, ret) == [s |-> a, ret |-> ret]
NoMemory(a, c) == IF c.refused > 0 THEN {Res(a, BADALLOC)} ELSE {}

Resized(q, n) == [i \in 1 .. n |-> IF i <= Len(q) THEN q[i] ELSE NULL]

(* order of two arrays: entries in turn, then the length; 2 stands for "missing entry met" *)
CmpArr(p, q) ==
  LET D == {i \in 1 .. Min2(Len(p), Len(q)) : p[i] = NULL \/ q[i] = NULL \/ p[i] # q[i]} IN
  IF D = {} THEN (IF Len(p) < Len(q) THEN -1 ELSE IF Len(p) > Len(q) THEN 1 ELSE 0)
  ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN
       IF p[i] = NULL \/ q[i] = NULL THEN 2 ELSE CmpBytes(p[i], q[i])
CmpRet(p, q) == IF CmpArr(p, q) = 2 THEN ERROR ELSE OK
CmpVal(p, q) == LET x == CmpArr(p, q) IN IF x = 2 THEN 0 ELSE x

(* order used for sorting: missing entries last *)
SortCmp(x, y) ==
  IF x = NULL THEN (IF y = NULL THEN 0 ELSE 1) ELSE IF y = NULL THEN -1 ELSE CmpBytes(x, y)
Ordered(q) == \A i \in 1 .. Len(q) - 1 : SortCmp(q[i], q[i + 1]) <= 0
Count(q, x) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
Permutation(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) \cup Range(q) : Count(p, x) = Count(q, x)

(* rcutils_qsort on elements of any size, which carry a key and (from three bytes on) where they came from; what
   the comparison calls smaller comes first, and the elements move as wholes.
   c.in: the keys, c.out, c.idx: keys and origins observed afterwards *)
QsRet(c) == IF c.nulls = 2 THEN INVALID ELSE IF Len(c.in) <= 1 \/ c.nulls = 0 THEN OK ELSE INVALID
QsMoved(c) == /\ \A i \in 1 .. Len(c.out) - 1 : c.dir * c.out[i] <= c.dir * c.out[i + 1]
              /\ IF c.esize >= 3
                 THEN /\ SeqToSet(c.idx) = 1 .. Len(c.in)
                      /\ \A i \in 1 .. Len(c.out) : c.in[c.idx[i]] = c.out[i]
                 ELSE Permutation(c.in, c.out)
QsKept(c) == c.out = c.in /\ \A i \in 1 .. Len(c.idx) : c.idx[i] = i
QsOk(c) == /\ Len(c.out) = Len(c.in) /\ c.intact
           /\ IF QsRet(c) = OK /\ c.nulls = 0 THEN QsMoved(c) ELSE QsKept(c)

DoA(st, a, c) ==
  CASE c.op = "SaInit" ->
         IF a.init THEN {}      \* the caller must not initialise an array twice
         ELSE IF c.n = -1 THEN {Res(NoArray, BADALLOC)}
         ELSE {Res([NoArray EXCEPT !.init = TRUE, !.ent = Resized(<<>>, c.n)], OK)} \cup NoMemory(NoArray, c)
    [] c.op = "SaPut" ->
         IF c.i < Len(a.ent) THEN {Res([a EXCEPT !.ent[c.i + 1] = c.str], 0)} ELSE {Res(a, -1)}
    [] c.op = "SaBulk" ->        \* every entry written, by a pattern
         {Res([a EXCEPT !.ent = [i \in 1 .. Len(a.ent) |-> <<115>> \o Dec((c.a * (i - 1) + c.b) % c.c)]], 0)}
    [] c.op = "SaResize" ->
         IF c.n = Len(a.ent) THEN {Res(a, OK)}
         ELSE IF a.fin THEN {}
         ELSE IF ~a.init THEN {Res(a, INVALID)}
         ELSE IF c.n = -1 THEN {Res(a, BADALLOC)}
         ELSE {Res([a EXCEPT !.ent = Resized(a.ent, c.n)], OK)} \cup NoMemory(a, c)
    [] c.op = "SaFini" -> {Res(IF a.init \/ a.fin THEN Finalised ELSE NoArray, OK)}
                          \cup (IF Injected(c) THEN {Res(a, INVALID)} ELSE {})
    [] c.op = "SaSort" ->     \* c.ent: the order that was observed
         IF Len(a.ent) = 0 THEN {Res(a, OK), Res(a, INVALID)}
         ELSE IF Ordered(c.ent) /\ Permutation(a.ent, c.ent) THEN {Res([a EXCEPT !.ent = c.ent], OK)}
         ELSE {}
    [] c.op = "SaCmp" -> {Res(a, CmpRet(st[c.a].ent, st[c.b].ent))}
    [] c.op = "SaQs" -> IF QsOk(c) THEN {Res(a, QsRet(c))} ELSE {}
    [] c.op \in {"SaSortCmp", "SaNulls"} -> {Res(a, OK)}
    [] OTHER -> {}
Do(st, c) == {Res([st EXCEPT ![c.slot] = x.s], x.ret) : x \in DoA(st, st[c.slot], c)}

Observed(a, e) == e.size = Len(a.ent) /\ e.ent = a.ent /\ (e.nodata => Len(a.ent) = 0)
(* strings the arrays own, each a block of its own *)
Owned(a) == Cardinality({i \in 1 .. Len(a.ent) : a.ent[i] # NULL})
OutOk(st, e) ==
  CASE e.op = "SaCmp" ->
         LET p == st[e.a].ent q == st[e.b].ent IN
         e.res = CmpVal(p, q) /\ e.ret2 = CmpRet(q, p) /\ e.res2 = CmpVal(q, p)
    [] e.op = "SaSortCmp" -> e.res = SortCmp(e.x, e.y)
    [] e.op = "SaInit" -> ~e.left
    [] e.op = "SaNulls" ->
         e.rets = <<INVALID, INVALID, INVALID, INVALID, INVALID, INVALID, INVALID, INVALID,
                    INVALID, INVALID, INVALID, INVALID, OK>>
    [] OTHER -> TRUE
LiveOk(st, e) ==
  LET strings == Owned(st[0]) + Owned(st[1]) IN
  IF \A s \in Slots : ~st[s].init THEN e.live = 0
  ELSE e.live >= strings /\ e.live <= strings + 2
Step(st, e) ==
  IF ~LedgerOk(e) \/ e.slot \notin Slots THEN {}
  ELSE {x.s : x \in {y \in Do(st, e) : /\ y.ret = e.ret
                                       /\ Observed(y.s[e.slot], e)
                                       /\ OutOk(st, e)
                                       /\ LiveOk(y.s, e)}}
Ops == {"SaInit", "SaPut", "SaResize", "SaFini", "SaSort", "SaCmp", "SaSortCmp", "SaNulls", "SaQs", "SaBulk"}
=============================================================================
