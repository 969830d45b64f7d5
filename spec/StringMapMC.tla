---------------------------- MODULE StringMapMC ----------------------------
EXTENDS StringMap, Json
CONSTANTS NK, NV, MAXCAP, EMIT, TWO
VARIABLE st
vars == <<st>>
K == {SubSeq(<<97, 98, 97>>, 1, i) : i \in 0 .. NK - 1}      \* "", "a", "ab", "aba": prefixes
V == {<<48 + i>> : i \in 1 .. NV}
Used == IF TWO THEN Slots ELSE {0}
Calls ==
  [op : {"SmInit", "SmReserve"}, slot : Used, capreq : 0 .. MAXCAP, refused : {0, 1}]
    \cup [op : {"SmFini", "SmClear"}, slot : Used, refused : {0}]
    \cup [op : {"SmSet", "SmSetNR"}, slot : Used, key : K, val : V, refused : {0, 1}, cap : 0 .. MAXCAP]
    \cup [op : {"SmUnset"}, slot : Used, key : K, refused : {0}]
    \cup [op : {"SmGet"}, slot : Used, key : K, refused : {0}]
    \cup [op : {"SmCopy"}, slot : Used, src : Used, refused : {0, 1}, cap : 0 .. MAXCAP, done : SUBSET K]
(* hints that the call does not need are fixed, so as not to repeat transitions *)
Useful(c) ==
  CASE c.op \in {"SmSet", "SmSetNR"} ->
         LET m == st[c.slot] IN
         c.cap = (IF c.op = "SmSet" /\ Size(m) = m.cap THEN (IF m.cap = 0 THEN 1 ELSE 2 * m.cap) ELSE 0)
    [] c.op = "SmCopy" -> (c.refused = 0 => c.done = {})
    [] OTHER -> TRUE
Init == st = Init0
Next == \E c \in Calls : Useful(c) /\ \E r \in Do(st, c) :
          /\ \A s \in Slots : r.s[s].cap <= MAXCAP
          /\ st' = r.s
          /\ ((EMIT /\ c.refused = 0) => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Sane == \A s \in Slots :
  /\ ~st[s].init => st[s] = NoMap
  /\ Size(st[s]) <= st[s].cap
  /\ \A k \in DOMAIN st[s].ent : k \in K /\ st[s].ent[k] \in V
(* reserving never loses an entry *)
ReserveKeeps == \A s \in Used : st[s].init => \A n \in 0 .. MAXCAP :
  \A x \in DoReserve(st[s], [op |-> "SmReserve", capreq |-> n, refused |-> 0]) :
     x.s.ent = st[s].ent /\ x.s.cap = Max2(n, Size(st[s]))
SourceUnchanged == [][\A s \in Slots : st'[s] # st[s] => \A t \in Slots \ {s} : st'[t] = st[t]]_vars
(* without resize, a full map is refused without effect *)
FullIsRefused == \A s \in Used : (st[s].init /\ Size(st[s]) = st[s].cap) => \A k \in K \ DOMAIN st[s].ent :
  DoSetNR(st[s], [key |-> k, val |-> <<48>>, refused |-> 0]) = {Res(st[s], NOSPACE)}
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Contained == \A c \in {x \in Calls : x.refused > 0 /\ Useful(x)} : \A r \in Do(st, c) :
  \/ r \in Do(st, IF c.op = "SmCopy" THEN [c EXCEPT !.refused = 0, !.done = {}] ELSE [c EXCEPT !.refused = 0])
  \/ /\ r.ret # OK
     /\ \A s \in Slots : \/ r.s[s].init = st[s].init /\ r.s[s].ent = st[s].ent
                         \/ /\ c.op = "SmCopy" /\ s = c.slot      \* entries already copied stay
                            /\ DOMAIN st[s].ent \subseteq DOMAIN r.s[s].ent
                            /\ \A k \in DOMAIN r.s[s].ent :
                                 \/ k \in DOMAIN st[s].ent /\ r.s[s].ent[k] = st[s].ent[k]
                                 \/ k \in DOMAIN st[c.src].ent /\ r.s[s].ent[k] = st[c.src].ent[k]
=============================================================================
