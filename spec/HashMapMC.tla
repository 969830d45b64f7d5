----------------------------- MODULE HashMapMC -----------------------------
(* Bounded exhaustive exploration of HashMap, and source of the calls replayed into the code. *)
EXTENDS HashMap, Json
CONSTANTS K, V, VARS, MAXCAP, CAPS, ITER, EMIT
VARIABLE st
vars == <<st>>
Refusals == {0, 1}
Base == [refused |-> 0]
Calls ==
  {[op |-> "HmInit", nul |-> FALSE, ks |-> 2, ds |-> 1, capreq |-> n, refused |-> r] : n \in CAPS, r \in Refusals}
    \cup {[op |-> "HmSet", k |-> k, var |-> x, v |-> v, refused |-> r] : k \in K, x \in VARS, v \in V, r \in Refusals}
    \cup {[op |-> "HmUnset", k |-> k, refused |-> 0] : k \in K}
    \cup {[op |-> "HmGet", k |-> k, refused |-> 0] : k \in K}
    \cup {[op |-> "HmFini", refused |-> 0]}
    \cup (IF ITER THEN {[op |-> "HmNext", k |-> k, nk |-> n, refused |-> 0] : k \in K \cup {Start}, n \in K} ELSE {})
Init == st = Init0
Enabled(c) == c.op = "HmInit" => ~st.init
Next == \E c \in Calls : Enabled(c) /\ \E r \in Do(st, c) :
          /\ r.s.cap <= MAXCAP
          /\ st' = r.s
          /\ (EMIT /\ c.refused = 0) => PrintT(ToJson(<<ToString(st), c, ToString(st')>>))
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
Sane ==
  /\ ~st.init => st = Init0
  /\ st.init => /\ st.cap = RoundUp(st.cap)          \* a power of two
                /\ Keys(st) \subseteq K
                /\ \A k \in Keys(st) : st.ent[k].v \in V
(* what was learnt of the iteration order can always be completed, and the next request succeeds *)
IterationCompletes ==
  st.init => /\ Consistent(st.nxt, Keys(st))
             /\ \A k \in Keys(st) \cup {Start} :
                  \E n \in K : DoNext(st, [op |-> "HmNext", k |-> k, nk |-> n]) # {}
(* every call has an outcome *)
Total == \A c \in Calls : (Enabled(c) /\ c.op # "HmNext") => Do(st, c) # {}
CapacityNeverShrinks == [][st.init /\ st'.init => st'.cap \in {st.cap, 2 * st.cap}]_vars
GrowthOnlyWhenFull ==
  [][st.init /\ st'.init /\ st'.cap # st.cap => Full(Cardinality(DOMAIN st'.ent), st.cap)]_vars
OnlyOneKeyChanges ==
  [][st.init /\ st'.init =>
      Cardinality({k \in K : Lookup(st, k) # Lookup(st', k)}) <= 1]_vars
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Contained == \A c \in {x \in Calls : x.refused > 0 /\ Enabled(x)} : \A r \in Do(st, c) :
  \/ \E q \in Do(st, [c EXCEPT !.refused = 0]) : q.ret = r.ret /\ q.s.init = r.s.init /\ q.s.ent = r.s.ent
  \/ r.ret # OK /\ r.s.init = st.init /\ r.s.ent = st.ent /\ r.s.cap = st.cap
=============================================================================
