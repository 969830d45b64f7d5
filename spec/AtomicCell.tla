----------------------------- MODULE AtomicCell -----------------------------
(* The atomic helpers (property C28): shared cells of the four types, each operation on which takes
   effect at one instant between its call and its return.  As in FaultCounter, a state is the set of
   configurations that agree with what was called and returned so far.  Numbers are limbs. *)
EXTENDS Common
Threads == 0 .. 3
Cells == {"b", "i", "u", "p"}
Million == 1000000
Zero == <<0, 0, 0>>
One == <<0, 0, 1>>
Add(x, y) ==
  LET c == x[3] + y[3]
      b == x[2] + y[2] + c \div Million
      a == x[1] + y[1] + b \div Million
  IN <<a, b % Million, c % Million>>
Of(ty, x) == IF ty = "b" THEN (IF x = Zero THEN Zero ELSE One) ELSE x     \* as a value of the type

(* one operation on a cell holding x: [x, v, seen] *)
Do(ty, x, f, a, b) ==
  CASE f = "l" -> [x |-> x, v |-> x, seen |-> Zero]
    [] f = "s" -> [x |-> Of(ty, a), v |-> Zero, seen |-> Zero]
    [] f = "x" -> [x |-> Of(ty, a), v |-> x, seen |-> Zero]
    [] f = "c" -> IF x = Of(ty, a) THEN [x |-> Of(ty, b), v |-> One, seen |-> x] ELSE [x |-> x, v |-> Zero, seen |-> x]
    [] f = "a" -> [x |-> Add(x, a), v |-> x, seen |-> Zero]

Idle == [k |-> "idle"]
Config0 == [c |-> [y \in Cells |-> Zero], th |-> [t \in Threads |-> Idle]]
Init0 == {Config0}
TakeEffect(g, t) ==
  LET o == g.th[t]
      r == Do(o.ty, g.c[o.ty], o.f, o.a, o.b)
  IN [c |-> [g.c EXCEPT ![o.ty] = r.x], th |-> [g.th EXCEPT ![t] = [k |-> "done", v |-> r.v, seen |-> r.seen]]]
RECURSIVE Closure(_)
Closure(S) ==
  LET X == S \cup {TakeEffect(p[1], p[2]) : p \in {q \in S \X Threads : q[1].th[q[2]].k = "pend"}}
  IN IF X = S THEN S ELSE Closure(X)
Next1(st, e) ==
  CASE e.op = "Setup" -> {[g EXCEPT !.c = [y \in Cells |-> Of(y, e.v)]] : g \in st}
    [] e.op = "Call" -> {[g EXCEPT !.th[e.t] = [k |-> "pend", ty |-> e.ty, f |-> e.f, a |-> e.a, b |-> e.b]] : g \in {x \in st : x.th[e.t] = Idle}}
    [] e.op = "Ret" -> {[g EXCEPT !.th[e.t] = Idle] :
                          g \in {x \in Closure(st) : x.th[e.t].k = "done" /\ x.th[e.t].v = e.v /\ x.th[e.t].seen = e.seen}}
    [] e.op = "End" -> {g \in st : \A t \in Threads : g.th[t] = Idle}
    [] e.op = "Ran" -> st
    [] OTHER -> {}
Step(st, e) == LET n == Next1(st, e) IN IF n = {} THEN {} ELSE {n}
Ops == {"Setup", "Call", "Ret", "End", "Ran"}
=============================================================================
