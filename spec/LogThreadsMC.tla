---------------------------- MODULE LogThreadsMC ----------------------------
(* Threads which compose their line in memory of their own and hand it to the stream in one piece,
   observed through LogThreads: every schedule is admitted.  ALGO = "shared": the line is composed
   in memory shared between the threads; "pieces": it is written in two pieces; "late": it may come
   out after the call has returned; "lost": it is dropped when another thread is writing.  Each of
   those must be refuted. *)
EXTENDS LogThreads
CONSTANTS T, PER, ALGO
VARIABLES pc, left, out, buf, mon, late
vars == <<pc, left, out, buf, mon, late>>
M(t, i) == [op |-> "Call", t |-> t, sev |-> IF i = 2 THEN 10 ELSE 30, n |-> <<110>>, fmt |-> <<77, 37, 115>>, s |-> <<97 + t, 48 + i>>, num |-> 0,
            loc |-> FALSE, func |-> <<>>, file |-> <<>>, line |-> <<48>>, ts |-> [j \in 1 .. 19 |-> 49]]
LineOf(t, i) == Effect(mon.lg, M(t, i)).text
Buf(t) == IF ALGO = "shared" THEN 0 ELSE t
Init == /\ pc = [t \in T |-> "idle"] /\ left = [t \in T |-> PER] /\ out = <<>> /\ buf = [t \in Threads |-> <<>>] /\ late = <<>>
        /\ mon = [Init0 EXCEPT !.lg = Configured([op |-> "Setup", env4 |-> <<123,109,101,115,115,97,103,101,125>>, def |-> 20, hd |-> 1, lv |-> <<>>])]
Mon(e) == mon' = (LET S == Step(mon, e) IN IF S = {} THEN [Init0 EXCEPT !.part = <<-1>>] ELSE CHOOSE s \in S : TRUE)
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ pc' = [pc EXCEPT ![t] = "compose"] /\ Mon(M(t, left[t]))
            /\ UNCHANGED <<left, out, buf, late>>
Compose(t) == /\ pc[t] = "compose" /\ buf' = [buf EXCEPT ![Buf(t)] = LineOf(t, left[t])]
              /\ pc' = [pc EXCEPT ![t] = IF LineOf(t, left[t]) = <<>> THEN "ret" ELSE "write"] /\ UNCHANGED <<left, out, mon, late>>
Write(t) == /\ pc[t] = "write"
            /\ LET l == buf[Buf(t)] IN
               CASE ALGO = "pieces" -> out' = out \o SubSeq(l, 1, 2) /\ pc' = [pc EXCEPT ![t] = "rest"] /\ UNCHANGED late
                 [] ALGO = "late" -> late' = late \o l /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED out
                 [] ALGO = "lost" /\ (\E u \in T \ {t} : pc[u] = "write") -> UNCHANGED <<out, late>> /\ pc' = [pc EXCEPT ![t] = "ret"]
                 [] OTHER -> out' = out \o l /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED late
            /\ UNCHANGED <<left, buf, mon>>
Rest(t) == /\ pc[t] = "rest" /\ out' = out \o SubSeq(buf[Buf(t)], 3, Len(buf[Buf(t)])) /\ pc' = [pc EXCEPT ![t] = "ret"]
           /\ UNCHANGED <<left, buf, mon, late>>
Flush == late # <<>> /\ out' = out \o late /\ late' = <<>> /\ UNCHANGED <<pc, left, buf, mon>>
Done(t) == /\ pc[t] = "ret" /\ Mon([op |-> "Ret", t |-> t, dl |-> <<>>, es |-> FALSE, out |-> out]) /\ out' = <<>>
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<buf, late>>
Bad == mon.part = <<-1>>
Next == ~Bad /\ (Flush \/ \E t \in T : Begin(t) \/ Compose(t) \/ Write(t) \/ Rest(t) \/ Done(t))
Spec == Init /\ [][Next]_vars
Admitted == ~Bad
AtEnd == (\A t \in T : left[t] = 0) => Step(mon, [op |-> "End", out |-> out]) # {}
Witness == (Bad \/ ~AtEnd) => TLCSet(7, TRUE)
Refuted == TLCGet(7) = TRUE
ASSUME TLCSet(7, FALSE)
=============================================================================
