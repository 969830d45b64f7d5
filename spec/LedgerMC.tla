------------------------------ MODULE LedgerMC ------------------------------
(* What the ledger admits: any calls at all, doing anything at all to the allocator. *)
EXTENDS Ledger
CONSTANTS B, LEN
VARIABLES st, got, back   \* how often each block has been obtained and released
vars == <<st, got, back>>
Ms == {<<k, b>> : k \in {1, 2}, b \in 1 .. B} \cup {<<k, 0>> : k \in {3, 4, 5, 6}}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {Append(s, m) : s \in {t \in Seqs(n - 1) : Len(t) = n - 1}, m \in Ms}
Refusals(mem) == Cardinality({i \in 1 .. Len(mem) : mem[i][1] = 3})
Events == {[op |-> o, slot |-> x, ret |-> r, mem |-> m, refused |-> Refusals(m), absurd |-> 0] :
             o \in {"SmInit", "SmSet", "SmFini", "Find", "Quiet"}, x \in {0, 1}, r \in {OK, BADALLOC}, m \in Seqs(LEN)}
Count(m, k, b) == Cardinality({i \in 1 .. Len(m) : m[i] = <<k, b>>})
Init == st = Init0 /\ got = [b \in 1 .. B |-> 0] /\ back = [b \in 1 .. B |-> 0]
Next == \E e \in Events : \E s \in Step(st, e) :
  /\ st' = s
  /\ got' = [b \in 1 .. B |-> got[b] + Count(e.mem, 1, b)]
  /\ back' = [b \in 1 .. B |-> back[b] + Count(e.mem, 2, b)]
Spec == Init /\ [][Next]_vars
Bounded == \A b \in 1 .. B : got[b] <= 2
(* each block is outstanding exactly when it has been obtained once more often than released *)
Balanced == \A b \in 1 .. B : got[b] - back[b] = (IF b \in DOMAIN st.live THEN 1 ELSE 0)
Owned == \A b \in DOMAIN st.live : st.live[b] \in {<<2, 0>>, <<2, 1>>}
(* what the ledger refuses *)
Refuses == \A e \in Events :
  /\ (\E i \in 1 .. Len(e.mem) : e.mem[i][1] \in {4, 6}) => Step(st, e) = {}
  /\ (e.op # "Quiet" /\ Len(e.mem) < 2 => Step(st, [e EXCEPT !.absurd = 1]) = {})
  /\ (e.refused = 0 /\ e.op # "Quiet" /\ \E i \in 1 .. Len(e.mem) : e.mem[i][1] = 5) => Step(st, e) = {}
  /\ (e.op = "Quiet" /\ e.mem = <<>> /\ DOMAIN st.live # {}) => Step(st, e) = {}
  /\ (e.op = "Find" => \A s \in Step(st, e) : s = st)
  /\ (e.op = "SmFini" /\ e.ret = OK => \A s \in Step(st, e) : Of(s.live, <<2, e.slot>>) = {})
  /\ (\A s \in Step(st, e) : e.op # "Quiet" => Of(s.live, <<2, 1 - e.slot>>) = Of(st.live, <<2, 1 - e.slot>>))
=============================================================================
