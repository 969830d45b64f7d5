----------------------------- MODULE ArrayList -----------------------------
(* The array list (property C04): a growable sequence of fixed-size elements.  Elements are the ids
   the driver decodes from their bytes (-2: not the bytes of any element that was stored). *)
EXTENDS Common

Init0 == [init |-> FALSE, list |-> <<>>]
Res(s, ret) == [s |-> s, ret |-> ret]
NoMemory(s, c) == IF c.refused > 0 THEN {Res(s, BADALLOC)} ELSE {}
InBounds(s, i) == i >= 0 /\ i < Len(s.list)
Without(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))      \* i counts from 0

Do(s, c) ==
  CASE c.op = "AlInit" ->
         IF c.badargs \/ s.init THEN {Res(s, INVALID)}
         ELSE IF c.huge THEN {Res(s, INVALID), Res(s, BADALLOC)}
         ELSE {Res([init |-> TRUE, list |-> <<>>], OK)} \cup NoMemory(s, c)
    [] c.op = "AlFini" -> IF s.init THEN {Res(Init0, OK)} ELSE {Res(s, NOTINIT)}
    [] c.op = "AlAdd" ->
         IF ~s.init THEN {Res(s, NOTINIT)}
         ELSE {Res([s EXCEPT !.list = Append(s.list, c.v)], OK)} \cup NoMemory(s, c)
    [] c.op = "AlSet" ->
         IF ~s.init THEN {Res(s, NOTINIT)}
         ELSE IF InBounds(s, c.i) THEN {Res([s EXCEPT !.list[c.i + 1] = c.v], OK)}
         ELSE {Res(s, INVALID)}
    [] c.op = "AlRemove" ->
         IF ~s.init THEN {Res(s, NOTINIT)}
         ELSE IF InBounds(s, c.i) THEN {Res([s EXCEPT !.list = Without(s.list, c.i)], OK)}
         ELSE {Res(s, INVALID)}
    [] c.op = "AlBulk" ->        \* many additions in a row
         IF ~s.init THEN {Res(s, NOTINIT)}
         ELSE {Res([s EXCEPT !.list = s.list \o [i \in 1 .. c.n |-> (c.a * (i - 1) + c.b) % 251]], OK)}
    [] c.op = "AlCut" ->         \* c.n removals at one place
         IF ~s.init THEN {Res(s, NOTINIT)}
         ELSE IF c.i + c.n > Len(s.list) THEN {}
         ELSE {Res([s EXCEPT !.list = SubSeq(s.list, 1, c.i) \o SubSeq(s.list, c.i + c.n + 1, Len(s.list))], OK)}
    [] c.op = "AlGet" ->
         IF ~s.init THEN {Res(s, NOTINIT)}
         ELSE IF InBounds(s, c.i) THEN {Res(s, OK)} ELSE {Res(s, INVALID)}
    [] c.op = "AlNulls" -> {Res(s, 0)}
    [] OTHER -> {}

Observed(s, e) ==
  IF s.init THEN e.size = Len(s.list) /\ e.obs = s.list ELSE e.size = -NOTINIT /\ e.obs = <<>>
OutOk(s, e) ==
  CASE e.op = "AlGet" -> (e.ret = OK => e.v = s.list[e.i + 1])
    [] e.op = "AlNulls" ->
         /\ e.rets = <<INVALID, INVALID, INVALID, INVALID, INVALID, INVALID>>
         /\ e.srets = LET r == IF s.init THEN INVALID ELSE NOTINIT IN <<r, r, r, r>>
    [] OTHER -> TRUE
Step(s, e) ==
  IF ~LedgerOk(e) THEN {}
  ELSE {x.s : x \in {y \in Do(s, e) : /\ y.ret = e.ret
                                      /\ OutOk(s, e)
                                      /\ Observed(y.s, e)
                                      /\ (~y.s.init => e.live = 0)}}
Ops == {"AlInit", "AlFini", "AlAdd", "AlSet", "AlRemove", "AlGet", "AlNulls", "AlBulk", "AlCut"}
=============================================================================
