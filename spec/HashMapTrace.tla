---------------------------- MODULE HashMapTrace ----------------------------
(* Is a recorded execution of the implementation a behaviour of HashMap?  There are several objects, and
   each is as if it were alone: `all` is what each of them should be, `cur` the one the calls act on. *)
EXTENDS HashMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES all, cur, l
Fresh == [k \in 0 .. 3 |-> Init0]
Init == all = Fresh /\ cur = 0 /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "Session" THEN all' = Fresh /\ cur' = 0
     ELSE IF e.op = "Sel" THEN cur' = e.k /\ all' = all
     ELSE /\ cur' = cur
          /\ IF e.op = "Done" THEN all' = all
             ELSE IF e.op \in Ops THEN all' \in {[all EXCEPT ![cur] = s] : s \in UNION {Step(all[cur], x) : x \in Variants(e)}}
             ELSE FALSE
Spec == Init /\ [][Next]_<<all, cur, l>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
