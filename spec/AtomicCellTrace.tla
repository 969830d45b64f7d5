---------------------------- MODULE AtomicCellTrace ----------------------------
(* Is a recorded execution of the implementation a behaviour of AtomicCell? *)
EXTENDS AtomicCell, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = Init0 /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "Session" THEN st' = Init0
     ELSE IF e.op = "Done" THEN st' = st
     ELSE IF e.op \in Ops THEN st' \in Step(st, e)
     ELSE FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
