------------------------------- MODULE EnvMC -------------------------------
EXTENDS Env, Json
CONSTANTS N, EMIT
VARIABLE st
vars == <<st>>
NS == {Names[i] : i \in N} \cup {NULL, <<>>, <<86, 61>>}
VS == {NULL, <<>>, <<49>>, <<61, 50>>}
Calls ==
  {[op |-> "EvSet", n |-> n, v |-> v, ow |-> o, sysfail |-> f] : n \in NS, v \in VS, o \in BOOLEAN, f \in BOOLEAN}
    \cup {[op |-> "EvCopy", n |-> Names[i], src |-> Names[j]] : i \in N, j \in N}
    \cup {[op |-> "EvExt", n |-> Names[i], v |-> v] : i \in N, v \in VS}
    \cup {[op |-> "EvGet", n |-> n] : n \in NS}
    \cup {[op |-> "EvHome"]}
Init == st = Init0
Next == \E c \in Calls : \E r \in Do(st, c) :
          /\ st' = r.s
          /\ (EMIT => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Total == \A c \in Calls : Cardinality(Do(st, c)) = 1
The(c) == CHOOSE r \in Do(st, c) : TRUE
(* a refused call changes nothing; an accepted one concerns its variable alone *)
Lawful == \A c \in {x \in Calls : x.op = "EvSet"} :
  /\ (~The(c).ret => The(c).s = st)
  /\ (Invalid(c.n) => ~The(c).ret)
  /\ (~Invalid(c.n) => \A i \in 1 .. Len(Names) : i # Ix(c.n) => The(c).s[i] = st[i])
  /\ (The(c).ret /\ c.ow => The(c).s[Ix(c.n)] = c.v)
  /\ (The(c).ret /\ ~c.ow /\ st[Ix(c.n)] # NULL => The(c).s = st)
(* an injected failure makes a call fail without an effect, or it works as it does without one *)
InjectedContained == \A c \in {x \in Calls : x.op \in {"EvSet", "EvCopy"}} :
  \A r \in Do(st, Inject(c)) : r \in Do(st, c) \/ (r.s = st /\ r.ret = FALSE)
=============================================================================
