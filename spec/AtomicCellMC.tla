---------------------------- MODULE AtomicCellMC ----------------------------
(* Operations which take effect in one step are admitted by AtomicCell on every schedule, and then
   nothing is lost: exchanges hand each stored value to exactly one thread, additions add up, and of
   several compare-and-exchanges from one value exactly one succeeds.  ALGO = "torn": an operation
   reads the cell and writes it back in two steps; it must be refuted. *)
EXTENDS AtomicCell
CONSTANTS T, ALGO, F
VARIABLES cell, pc, seen, got, mon
vars == <<cell, pc, seen, got, mon>>
Arg(t) == CASE F = "c" -> <<Zero, <<0, 0, t + 1>>>> [] F = "a" -> <<<<0, 999999, 900000>>, Zero>> [] OTHER -> <<<<0, 0, t + 1>>, Zero>>
Init == cell = Zero /\ pc = [t \in T |-> "idle"] /\ seen = [t \in T |-> Zero] /\ got = [t \in T |-> Zero] /\ mon = Init0
Begin(t) == pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "go"] /\ UNCHANGED <<cell, seen, got>>
            /\ mon' = Next1(mon, [op |-> "Call", t |-> t, ty |-> "u", f |-> F, a |-> Arg(t)[1], b |-> Arg(t)[2]])
Read(t) == pc[t] = "go" /\ seen' = [seen EXCEPT ![t] = cell] /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED <<cell, got, mon>>
Write(t, x) == LET r == Do("u", x, F, Arg(t)[1], Arg(t)[2]) IN
               cell' = r.x /\ got' = [got EXCEPT ![t] = r.v] /\ seen' = [seen EXCEPT ![t] = r.seen] /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED mon
Act(t) == IF ALGO = "torn" THEN Read(t) \/ (pc[t] = "write" /\ Write(t, seen[t])) ELSE pc[t] = "go" /\ Write(t, cell)
Ret(t) == pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "end"] /\ mon' = Next1(mon, [op |-> "Ret", t |-> t, v |-> got[t], seen |-> seen[t]])
          /\ UNCHANGED <<cell, seen, got>>
Next == mon # {} /\ \E t \in T : Begin(t) \/ Act(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
Admitted == mon # {}
AllOver == \A t \in T : pc[t] = "end"
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN Zero ELSE Add(x, Times(x, n - 1))
Conserved ==
  AllOver => CASE F = "x" -> {got[t] : t \in T} \cup {cell} = {Zero} \cup {<<0, 0, t + 1>> : t \in T}
               [] F = "a" -> cell = Times(Arg(0)[1], Cardinality(T))
               [] F = "c" -> Cardinality({t \in T : got[t] = One}) = 1
Witness == (mon = {}) => TLCSet(7, TRUE)
Refuted == TLCGet(7) = TRUE
ASSUME TLCSet(7, FALSE)
=============================================================================
