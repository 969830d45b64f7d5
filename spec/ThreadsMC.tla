----------------------------- MODULE ThreadsMC -----------------------------
(* Threads with machines of their own (here: a running sum, put together in a scratch variable before
   it is returned), observed through Threads.  With scratch memory of its own each thread's results
   are those of its machine alone on every schedule; ALGO = "scratch" shares the scratch memory,
   ALGO = "state" the machine: both must be refuted. *)
EXTENDS Threads
CONSTANTS T, PER, ALGO
VARIABLES sum, tmp, pc, done, res
vars == <<sum, tmp, pc, done, res>>
In(t, i) == (t + 1) * i
RECURSIVE Alone1(_, _)
Alone1(t, i) == IF i = 0 THEN 0 ELSE Alone1(t, i - 1) + In(t, i)
Result(t, i, v) == [op |-> "Ret", t |-> t, i |-> i, v |-> v]
RECURSIVE Concat(_)
Concat(t) == IF t \notin T THEN <<>> ELSE [i \in 1 .. PER |-> Result(t, i, Alone1(t, i))] \o Concat(t + 1)
Key(t) == IF ALGO = "state" THEN 0 ELSE t
Tmp(t) == IF ALGO = "scratch" THEN 0 ELSE t
Init == sum = [t \in T |-> 0] /\ tmp = [t \in T |-> 0] /\ pc = [t \in T |-> 0] /\ done = [t \in T |-> 0] /\ res = [t \in T |-> <<>>]
Put1(t) == pc[t] = 0 /\ done[t] < PER /\ tmp' = [tmp EXCEPT ![Tmp(t)] = sum[Key(t)] + In(t, done[t] + 1)]
           /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED <<sum, done, res>>
Take(t) == pc[t] = 1 /\ sum' = [sum EXCEPT ![Key(t)] = tmp[Tmp(t)]] /\ pc' = [pc EXCEPT ![t] = 2] /\ UNCHANGED <<tmp, done, res>>
Ret(t) == pc[t] = 2 /\ res' = [res EXCEPT ![t] = Append(@, Result(t, done[t] + 1, tmp[Tmp(t)]))] /\ pc' = [pc EXCEPT ![t] = 0]
          /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<sum, tmp>>
Next == \E t \in T : Put1(t) \/ Take(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
Over == \A t \in T : done[t] = PER
RECURSIVE AllRes(_)
AllRes(t) == IF t \notin T THEN <<>> ELSE res[t] \o AllRes(t + 1)
RECURSIVE Feed(_, _)
Feed(S, es) == IF es = <<>> THEN S ELSE Feed(UNION {Step(s, Head(es)) : s \in S}, Tail(es))
Admits == Feed({Init0}, <<[op |-> "Alone", all |-> Concat(0)]>> \o AllRes(0) \o <<[op |-> "End"]>>) # {}
Admitted == Over => Admits
Witness == (Over /\ ~Admits) => TLCSet(7, TRUE)
Refuted == TLCGet(7) = TRUE
ASSUME TLCSet(7, FALSE)
=============================================================================
