---------------------------- MODULE ArrayListMC ----------------------------
EXTENDS ArrayList, Json
CONSTANTS NV, MAXLEN, EMIT
VARIABLE st
vars == <<st>>
V == 1 .. NV
I == {-1} \cup 0 .. MAXLEN
Calls ==
  [op : {"AlInit"}, badargs : BOOLEAN, huge : BOOLEAN, refused : {0, 1}]
    \cup [op : {"AlFini"}, refused : {0}]
    \cup [op : {"AlAdd"}, v : V, refused : {0, 1}]
    \cup [op : {"AlSet"}, i : I, v : V, refused : {0}]
    \cup [op : {"AlRemove", "AlGet"}, i : I, refused : {0}]
Init == st = Init0
Next == \E c \in Calls : \E r \in Do(st, c) :
          /\ Len(r.s.list) <= MAXLEN
          /\ st' = r.s
          /\ ((EMIT /\ c.refused = 0) => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Sane == /\ ~st.init => st = Init0
        /\ \A i \in 1 .. Len(st.list) : st.list[i] \in V
Total == \A c \in Calls : Do(st, c) # {}
(* an index outside the list is refused and changes nothing *)
OutOfRange == st.init => \A i \in I : ~InBounds(st, i) =>
  \A o \in {"AlSet", "AlRemove", "AlGet"} : Do(st, [op |-> o, i |-> i, v |-> 1]) = {Res(st, INVALID)}
(* removal closes the gap: what was before and after keeps its order *)
RemoveCloses == st.init => \A i \in 0 .. Len(st.list) - 1 :
  LET q == Without(st.list, i) IN
  /\ Len(q) = Len(st.list) - 1
  /\ \A j \in 1 .. Len(q) : q[j] = st.list[IF j <= i THEN j ELSE j + 1]
(* the length changes by at most one in a step while the list stays initialised *)
Steady == [][(st.init /\ st'.init) => Len(st'.list) - Len(st.list) \in {-1, 0, 1}]_vars
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Contained == \A c \in {x \in Calls : x.refused > 0} : \A r \in Do(st, c) :
  r \in Do(st, [c EXCEPT !.refused = 0]) \/ (r.ret # OK /\ (r.s = st \/ (c.op = "AlInit" /\ r.s = Init0)))
=============================================================================
