------------------------------- MODULE Threads -------------------------------
(* Threads which share nothing do not disturb each other (property C27).

   Each thread works on objects of its own, or calls functions that keep nothing.  Its results are
   then those of its own machine alone, whatever the others do: the product of machines without a
   common variable.  `Alone` gives the results of each thread run by itself (what those must be is
   the subject of the specifications of the components); in every schedule each call must return
   the same, exactly once. *)
EXTENDS Common
Init0 == [ref |-> <<>>, n |-> 0]
Step(st, e) ==
  CASE e.op = "Setup" -> {st}
    [] e.op = "Alone" -> {[ref |-> e.all, n |-> 0]}
    [] e.op = "Ret" -> IF st.n < Len(st.ref) /\ st.ref[st.n + 1] = e THEN {[st EXCEPT !.n = @ + 1]} ELSE {}
    [] e.op = "End" -> IF st.n = Len(st.ref) THEN {[st EXCEPT !.n = 0]} ELSE {}
    [] e.op = "Ran" -> {st}
    [] OTHER -> {}
Ops == {"Setup", "Alone", "Ret", "End", "Ran"}
==============================================================================
