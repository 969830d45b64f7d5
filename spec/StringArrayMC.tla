--------------------------- MODULE StringArrayMC ---------------------------
EXTENDS StringArray, Json
CONSTANTS NS, MAXLEN, EMIT, TWO
VARIABLE st
vars == <<st>>
Strs == {<<>>, <<97>>, <<97, 98>>, <<98>>, <<200>>}
S == {NULL} \cup {<<SubSeq(<<97, 98>>, 1, i)>>[1] : i \in 0 .. NS - 1}
Used == IF TWO THEN Slots ELSE {0}
Calls ==
  [op : {"SaInit", "SaResize"}, slot : Used, n : {-1} \cup 0 .. MAXLEN, refused : {0, 1}]
    \cup [op : {"SaPut"}, slot : Used, i : 0 .. MAXLEN, str : S, refused : {0}]
    \cup [op : {"SaFini"}, slot : Used, refused : {0}]
    \cup {[op |-> "SaCmp", slot |-> a, a |-> a, b |-> b, refused |-> 0] : a \in Used, b \in Used}
    \cup [op : {"SaSort"}, slot : Used, refused : {0}, ent : {<<>>}]
Seqs(n) == UNION {[1 .. k -> S] : k \in 0 .. n}
RECURSIVE Perms(_)
Perms(q) == IF Len(q) = 0 THEN {<<>>}
            ELSE {<<q[i]>> \o p : i \in 1 .. Len(q), p \in UNION {Perms([k \in 1 .. Len(q) - 1 |->
                     IF k < j THEN q[k] ELSE q[k + 1]]) : j \in 1 .. Len(q)}}
Sorts(c) == IF c.op = "SaSort" THEN {[c EXCEPT !.ent = p] : p \in {x \in [1 .. Len(st[c.slot].ent) -> S] :
              Ordered(x) /\ Permutation(x, st[c.slot].ent)}} ELSE {c}
Init == st = Init0
Next == \E c0 \in Calls : \E c \in Sorts(c0) : \E r \in Do(st, c) :
          /\ st' = r.s
          /\ ((EMIT /\ c.refused = 0) => PrintT(ToJson(<<ToString(st), c0, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Sane == \A s \in Slots : ~st[s].init => st[s] \in {NoArray, Finalised}
(* sorting is determined by the order *)
SortUnique == \A s \in Used : Cardinality({x \in [1 .. Len(st[s].ent) -> S] :
                 Ordered(x) /\ Permutation(x, st[s].ent)}) = 1
(* resizing keeps the common prefix *)
ResizeKeeps == \A s \in Used : \A n \in 0 .. MAXLEN : \A i \in 1 .. n :
  Resized(st[s].ent, n)[i] = IF i <= Len(st[s].ent) THEN st[s].ent[i] ELSE NULL
OnlyOne == [][\A s \in Slots : st'[s] # st[s] => \A t \in Slots \ {s} : st'[t] = st[t]]_vars
(* the comparison is an order on arrays without missing entries *)
Arrs == UNION {[1 .. k -> {<<>>, <<97>>, <<98>>}] : k \in 0 .. 2}
ASSUME \A p, q \in Arrs : /\ CmpArr(p, q) = -CmpArr(q, p)
                          /\ (CmpArr(p, q) = 0) = (p = q)
ASSUME \A p, q, r \in Arrs : (CmpArr(p, q) <= 0 /\ CmpArr(q, r) <= 0) => CmpArr(p, r) <= 0
ASSUME \A x, y \in Strs \cup {NULL} : SortCmp(x, y) = -SortCmp(y, x) /\ (SortCmp(x, y) = 0) = (x = y)
ASSUME \A x, y, z \in Strs \cup {NULL} : (SortCmp(x, y) <= 0 /\ SortCmp(y, z) <= 0) => SortCmp(x, z) <= 0
(* sorting is possible and, where keys differ, determined *)
Idx(n) == {f \in [1 .. n -> 1 .. n] : SeqToSet(f) = 1 .. n}
QsCalls(in, dir) == {[op |-> "SaQs", in |-> in, out |-> [i \in 1 .. Len(in) |-> in[f[i]]], idx |-> f, esize |-> 4, dir |-> dir,
                      nulls |-> 0, intact |-> TRUE] : f \in Idx(Len(in))}
ASSUME \A n \in 0 .. 3 : \A in \in [1 .. n -> {1, 2, 3}] : \A dir \in {-1, 1} :
  LET good == {c \in QsCalls(in, dir) : QsOk(c)} IN
  /\ good # {} /\ Cardinality({c.out : c \in good}) = 1
  /\ (Cardinality(SeqToSet(in)) = n => Cardinality(good) = 1)
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Contained == \A c \in {x \in Calls : x.refused > 0} : \A r \in Do(st, c) :
  \/ r \in Do(st, [c EXCEPT !.refused = 0])
  \/ r.ret # OK /\ (r.s = st \/ (c.op = "SaInit" /\ r.s = [st EXCEPT ![c.slot] = NoArray]))
InjectedContained == \A c \in {x \in Calls : x.op # "SaSort"} :
  \A r \in Do(st, Inject(c)) : r \in Do(st, c) \/ (r.s = st /\ r.ret \in Failing)
=============================================================================
