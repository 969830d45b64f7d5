------------------------------ MODULE AllocMC ------------------------------
EXTENDS Alloc, Json
CONSTANTS I, N, EMIT
VARIABLE st
vars == <<st>>
Calls ==
  {[op |-> "AmNew", i |-> i, n |-> n, def |-> d, refused |-> r] : i \in {j \in I : ~Held(st[j])}, n \in N \cup {-1}, d \in BOOLEAN, r \in {0, 1}}
    \cup {[op |-> "AmZero", i |-> i, a |-> a, b |-> b, def |-> d, refused |-> 0] : i \in {j \in I : ~Held(st[j])}, a \in N \cup {-1}, b \in {0, 1, 2}, d \in BOOLEAN}
    \cup {[op |-> "AmFree", i |-> i] : i \in I}
    \cup {[op |-> "AmRe", i |-> i, f |-> f, n |-> n, mask |-> m, refused |-> r] : i \in I, f \in BOOLEAN, n \in N \cup {-1}, m \in {15, 13}, r \in {0, 1}}
Init == st = Init0
Next == \E c \in Calls : \E r \in Do(st, c) :
          /\ st' = r.s
          /\ (EMIT /\ (c.op \in {"AmNew", "AmRe"} => c.refused = 0) => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Sane == \A i \in Slots : st[i].n >= -1 /\ (Held(st[i]) <=> st[i].b # NULL) /\ (Held(st[i]) => Len(st[i].b) = Shown(st[i].n))
(* reallocation keeps what fits and failing to reallocate either keeps or releases, never both *)
Law == \A c \in {x \in Calls : x.op = "AmRe"} : \A r \in Do(st, c) :
  /\ (\A j \in Slots : j # c.i => r.s[j] = st[j])
  /\ (r.ret => r.s[c.i].n = c.n)
  /\ (r.ret /\ Held(st[c.i]) => \A k \in 1 .. Min2(Min2(c.n, st[c.i].n), SIZES) : r.s[c.i].b[k] = st[c.i].b[k])
  /\ (~r.ret /\ c.n # 0 /\ ~c.f => r.s = st)
  /\ (~r.ret /\ c.f /\ c.mask = 15 => ~Held(r.s[c.i]))
  /\ (c.f /\ c.mask # 15 => r.s = st)
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Contained == \A c \in {x \in Calls : x.op # "AmFree" /\ x.refused > 0} : \A r \in Do(st, c) :
  \/ r \in Do(st, [c EXCEPT !.refused = 0])
  \/ ~r.ret /\ (r.s = st \/ (c.op = "AmRe" /\ c.f /\ r.s = [st EXCEPT ![c.i] = Empty0]))
=============================================================================
