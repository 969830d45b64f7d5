-------------------------------- MODULE Env --------------------------------
(* The environment of the process as the library reads and writes it (C21).
   State: the value of each observed variable, NULL when it is not set. *)
EXTENDS Common

Long == [i \in 1 .. 4200 |-> 76]
Names == <<<<86,65>>, <<86,66>>, <<86,65,66>>, <<86>>, <<72,79,77,69>>, <<118,32,97,46,120>>, Long>>
HOME == 5
Init0 == [i \in 1 .. Len(Names) |-> NULL]
Known(n) == \E i \in 1 .. Len(Names) : Names[i] = n
Ix(n) == CHOOSE i \in 1 .. Len(Names) : Names[i] = n

(* a name no variable can have *)
Invalid(n) == n = NULL \/ n = <<>> \/ 61 \in Range(n)
Text(v) == IF v = NULL THEN <<>> ELSE v

Res(s, ret) == [s |-> s, ret |-> ret]
Set(st, n, v) == [st EXCEPT ![Ix(n)] = v]
Do(st, c) ==
  (IF Injected(c) /\ c.op \in {"EvSet", "EvCopy"} THEN {Res(st, FALSE)} ELSE {}) \cup
  CASE c.op = "EvSet" ->
         IF Invalid(c.n) THEN {Res(st, FALSE)}
         ELSE IF ~c.ow /\ st[Ix(c.n)] # NULL THEN {Res(st, TRUE)}
         ELSE IF c.sysfail THEN {Res(st, FALSE)}
         ELSE {Res(Set(st, c.n, c.v), TRUE)}
    [] c.op = "EvCopy" ->      \* set(n, get(src))
         IF Invalid(c.n) THEN {Res(st, FALSE)}
         ELSE {Res(Set(st, c.n, Text(st[Ix(c.src)])), TRUE)}
    [] c.op = "EvExt" -> {Res(Set(st, c.n, c.v), TRUE)}   \* the program, not the library
    [] c.op \in {"EvGet", "EvHome"} -> {Res(st, TRUE)}
    [] OTHER -> {}

OutOk(st, e) ==
  CASE e.op = "EvSet" -> TRUE
    [] e.op = "EvGet" ->
         IF e.n = NULL \/ ~e.outp \/ Injected(e) THEN e.err
         ELSE /\ ~e.err
              /\ (~Invalid(e.n) => e.v = (IF Known(e.n) THEN Text(st[Ix(e.n)]) ELSE <<>>))
    [] e.op = "EvHome" -> (Injected(e) /\ e.v = NULL) \/ e.v = (IF Text(st[HOME]) = <<>> THEN NULL ELSE st[HOME])
    [] OTHER -> TRUE

HasRet(e) == e.op \in {"EvSet", "EvCopy"}
Step(st, e) ==
  IF ~(LedgerOk(e) /\ e.raw = 0 /\ e.rest) THEN {}
  ELSE {x.s : x \in {y \in Do(st, e) : /\ (HasRet(e) => y.ret = e.ret)
                                       /\ e.obs = y.s
                                       /\ OutOk(st, e)}}
Ops == {"EvSet", "EvCopy", "EvExt", "EvGet", "EvHome"}
=============================================================================
