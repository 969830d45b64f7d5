--------------------------- MODULE FaultCounterMC ---------------------------
(* Threads counting down the way the library does - read the counter, then compare and exchange
   until nobody came in between - observed through FaultCounter's own monitor: on every schedule
   the monitor accepts the history, and after every arming exactly one injection point fails.
   With ALGO = "split" the counter is decremented by a load and a separate store, as a faulty
   implementation would; that variant must be rejected (POSTCONDITION Refuted), so the monitor is
   not vacuous. *)
EXTENDS FaultCounter
CONSTANTS T, N0, PER, ALGO, SETTER
VARIABLES cnt,      \* the shared counter
          pc, seen, left,
          mon,      \* the monitor's configurations
          fails, points
vars == <<cnt, pc, seen, left, mon, fails, points>>
Call(t, f, a) == mon' = Next1(mon, [op |-> "Call", t |-> t, f |-> f, a |-> a])
Ret(t, v) == mon' = Next1(mon, [op |-> "Ret", t |-> t, v |-> v])
Init == /\ cnt = Num(N0) /\ pc = [t \in T |-> "idle"] /\ seen = [t \in T |-> Zero] /\ left = [t \in T |-> PER]
        /\ mon = {[Config0 EXCEPT !.n = Num(N0)]} /\ fails = 0 /\ points = 0
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = IF t = SETTER THEN "store" ELSE "load"]
            /\ (IF t = SETTER THEN Call(t, "set", Num(1)) ELSE Call(t, "maybe", <<>>))
            /\ UNCHANGED <<cnt, seen, fails, points>>
Load(t) == /\ pc[t] = "load" /\ seen' = [seen EXCEPT ![t] = cnt]
           /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<cnt, left, mon, fails, points>>
Off(t) == /\ pc[t] = "test" /\ Negative(seen[t]) /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ Ret(t, FALSE) /\ points' = points + 1 /\ UNCHANGED <<cnt, seen, left, fails>>
Cas(t) == /\ pc[t] = "test" /\ ~Negative(seen[t])
          /\ (IF ALGO = "cas" /\ cnt # seen[t]
              THEN seen' = [seen EXCEPT ![t] = cnt] /\ UNCHANGED <<cnt, pc>>
              ELSE cnt' = Less1(seen[t]) /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED seen)
          /\ UNCHANGED <<left, mon, fails, points>>
Done(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ Ret(t, seen[t] = Zero) /\ fails' = fails + (IF seen[t] = Zero THEN 1 ELSE 0)
           /\ points' = points + 1 /\ UNCHANGED <<cnt, seen, left>>
Store(t) == /\ pc[t] = "store" /\ cnt' = Num(1) /\ pc' = [pc EXCEPT ![t] = "stored"] /\ UNCHANGED <<seen, left, mon, fails, points>>
Stored(t) == /\ pc[t] = "stored" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ mon' = Next1(mon, [op |-> "Ret", t |-> t])
             /\ UNCHANGED <<cnt, seen, left, fails, points>>
Next == /\ mon # {}
        /\ \E t \in T : Begin(t) \/ Load(t) \/ Off(t) \/ Cas(t) \/ Done(t) \/ Store(t) \/ Stored(t)
Spec == Init /\ [][Next]_vars
Admitted == mon # {}
(* nobody sets the counter again: exactly one failure once more than N0 points have been passed *)
Quiet == \A t \in T : pc[t] = "idle"
ExactlyOne ==
  (SETTER \notin T /\ Quiet) =>
    /\ fails = IF N0 >= 0 /\ points > N0 THEN 1 ELSE 0
    /\ cnt = IF N0 < 0 THEN Num(N0) ELSE IF points > N0 THEN Never ELSE Num(N0 - points)
AtMostOnePerArming == fails <= 1 + (IF SETTER \in T THEN PER ELSE 0)
(* the faulty variant is caught *)
Witness == (mon = {}) => TLCSet(7, TRUE)
Refuted == TLCGet(7) = TRUE
ASSUME TLCSet(7, FALSE)
(* arithmetic *)
ASSUME /\ \A i \in 1 .. 20 : Less1(Num(i)) = Num(i - 1)
       /\ Less1(Zero) = Never /\ Less1(<<1, 0, 0>>) = <<0, 999999, 999999>> /\ Less1(<<0, 5, 0>>) = <<0, 4, 999999>>
       /\ Negative(Never) /\ ~Negative(Zero)
=============================================================================
