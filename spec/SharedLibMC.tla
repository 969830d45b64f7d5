---------------------------- MODULE SharedLibMC ----------------------------
EXTENDS SharedLib, Json
CONSTANTS H, EMIT
VARIABLE st
vars == <<st>>
Calls ==
  {[op |-> "SlLoad", h |-> h, lib |-> l, given |-> g, valid |-> v, infofail |-> i, refused |-> r] :
     h \in H \cup {3}, l \in {-1, 0, 1, 2, 3}, g \in BOOLEAN, v \in BOOLEAN, i \in BOOLEAN, r \in {0, 1}}
   \cup {[op |-> "SlUnload", h |-> h, closefail |-> f] : h \in H \cup {3}, f \in BOOLEAN}
   \cup {[op |-> "SlSym", h |-> h, n |-> n] : h \in H \cup {3}, n \in {FA, FB, FC, DC, NULL, <<120>>}}
Init == st = Init0
Next == \E c \in Calls : \E r \in Do(st, c) :
          /\ st' = r.s
          /\ (EMIT => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Total == \A c \in Calls : Cardinality(Do(st, c)) = 1
The(c) == CHOOSE r \in Do(st, c) : TRUE
(* loaded exactly between a successful load and the next unload *)
Lawful == \A c \in Calls :
  /\ (c.op = "SlLoad" /\ The(c).ret # OK => The(c).s = st)
  /\ (c.op = "SlLoad" /\ The(c).ret = OK => st[c.h] = 0 /\ The(c).s[c.h] = c.lib)
  /\ (c.op = "SlUnload" /\ The(c).ret = OK => st[c.h] # 0 /\ The(c).s[c.h] = 0)
  /\ (c.op # "SlSym" /\ c.h \in Handles => \A h \in Handles \ {c.h} : The(c).s[h] = st[h])
  /\ (c.op = "SlSym" => The(c).s = st /\ (The(c).ret # 0 => st[c.h] # 0))
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Contained == \A c \in {x \in Calls : x.op = "SlLoad" /\ x.refused > 0} : \A r \in Do(st, c) :
  r \in Do(st, [c EXCEPT !.refused = 0]) \/ (r.ret # OK /\ r.s = st)
=============================================================================
