---------------------------- MODULE LedgerTrace ----------------------------
(* Does a recorded execution respect the allocator?  Every event of every component is admissible
   here: only what it did to the allocator matters. *)
EXTENDS Ledger, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = Init0 /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "Session" THEN st' = Init0
     ELSE IF e.op = "Done" THEN st' = st
     ELSE IF e.op = "Crash" THEN FALSE
     ELSE st' \in Step(st, e)
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
