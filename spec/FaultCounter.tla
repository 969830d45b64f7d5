---------------------------- MODULE FaultCounter ----------------------------
(* The fault-injection counter under concurrent use (property C15).

   The counter is one shared number; each operation on it takes effect at one instant between its
   call and its return.  A state of this specification is the set of all configurations which agree
   with the calls and returns seen so far: what the counter may hold, and for each thread whether it
   is idle, has called something that has not taken effect, or will return a known result.  An
   execution of the code is admissible when that set never becomes empty.

   64-bit numbers are limbs <<a, b, c>>: (a * 10^6 + b) * 10^6 + c with 0 <= b, c < 10^6. *)
EXTENDS Common

Threads == 0 .. 3
Million == 1000000
Num(i) == IF i >= 0 THEN <<0, i \div Million, i % Million>> ELSE <<-1, Million - 1, Million + i>>   \* |i| small
Never == Num(-1)
Negative(n) == n[1] < 0
Zero == Num(0)
Less1(n) == IF n[3] > 0 THEN <<n[1], n[2], n[3] - 1>>
            ELSE IF n[2] > 0 THEN <<n[1], n[2] - 1, Million - 1>>
            ELSE <<n[1] - 1, Million - 1, Million - 1>>

(* ---- the sequential meaning: [n, v] with v a result (<<>> none, <<0>> / <<1>> a truth value, or a number) ---- *)
No == <<0>>
Yes == <<1>>
Do(n, f, a) ==
  CASE f = "set" -> [n |-> a, v |-> <<>>]
    [] f = "get" -> [n |-> n, v |-> n]
    [] f = "maybe" -> IF Negative(n) THEN [n |-> n, v |-> No]
                      ELSE [n |-> Less1(n), v |-> IF n = Zero THEN Yes ELSE No]
    [] f = "done" -> [n |-> n, v |-> IF Negative(n) THEN No ELSE Yes]

(* ---- configurations ---- *)
Idle == [k |-> "idle", f |-> "", a |-> <<>>]
Config0 == [n |-> Never, th |-> [t \in Threads |-> Idle]]
Init0 == {Config0}
Pending(f, a) == [k |-> "pend", f |-> f, a |-> a]
Known(f, v) == [k |-> "done", f |-> f, a |-> v]
Single == {"set", "get", "maybe", "done"}
TakeEffect(c, t) ==
  LET r == Do(c.n, c.th[t].f, c.th[t].a) IN [n |-> r.n, th |-> [c.th EXCEPT ![t] = Known(c.th[t].f, r.v)]]
RECURSIVE Closure(_)
Closure(S) ==
  LET X == S \cup {TakeEffect(p[1], p[2]) : p \in {q \in S \X Threads : q[1].th[q[2]].k = "pend" /\ q[1].th[q[2]].f \in Single}}
  IN IF X = S THEN S ELSE Closure(X)
Invoke(st, t, f, a) == {[c EXCEPT !.th[t] = Pending(f, a)] : c \in {x \in st : x.th[t] = Idle}}
Return(st, t, v) ==
  {[c EXCEPT !.th[t] = Idle] : c \in {x \in Closure(st) : x.th[t].k = "done" /\ x.th[t].a = v}}

(* ---- what one thread does with nobody else about ---- *)
(* RCUTILS_FAULT_INJECTION_TEST around code with k injection points, that numbered `pause` (from 0)
   under RCUTILS_NO_FAULT_INJECTION: run number i has exactly the i-th active point failing, and the
   last run none *)
Active(k, p) == SelectSeq([i \in 1 .. k |-> i - 1], LAMBDA i : i # p)
TestRuns(k, p) == LET A == Active(k, p) IN [i \in 1 .. Len(A) + 1 |-> IF i <= Len(A) THEN <<A[i]>> ELSE <<>>]
(* a function of the library: with the counter off it succeeds and the counter stays off; with a
   far-away count it succeeds and uses `points` of it; with n < points it fails and the counter ends
   off; otherwise it succeeds and leaves the rest *)
LibraryOk(e) ==
  /\ e.off = <<1, -1>> /\ e.far = 1 /\ e.points >= 0
  /\ Len(e.v) = e.points + 2
  /\ \A i \in 1 .. e.points : e.v[i] = <<0, -1>>
  /\ e.v[e.points + 1] = <<1, 0>> /\ e.v[e.points + 2] = <<1, 1>>
OthersIdle(c, t) == \A u \in Threads \ {t} : c.th[u] = Idle
AloneOk(c, e) ==
  /\ OthersIdle(c, e.t)
  /\ CASE c.th[e.t].f = "test" -> e.v = TestRuns(c.th[e.t].a[1], c.th[e.t].a[2])
       [] c.th[e.t].f = "lib" -> LibraryOk(e)
       [] OTHER -> FALSE

ArgOf(e) == CASE e.f = "set" -> e.a [] e.f = "test" -> <<e.k, e.pause>> [] e.f = "lib" -> <<e.w>> [] OTHER -> <<>>
ResultOf(f, e) == CASE f = "set" -> <<>> [] f = "get" -> e.v [] OTHER -> (IF e.v THEN Yes ELSE No)
(* the successor states; a state without configurations is not admissible *)
Next1(st, e) ==
  CASE e.op = "Setup" -> {[c EXCEPT !.n = e.count] : c \in st}
    [] e.op = "Call" -> Invoke(st, e.t, e.f, ArgOf(e))
    [] e.op = "Ret" ->
         LET f == (CHOOSE c \in st : TRUE).th[e.t].f IN    \* the same in every configuration
         IF f \in {"test", "lib"} THEN {[c EXCEPT !.n = Never, !.th[e.t] = Idle] : c \in {x \in st : x.th[e.t].k = "pend" /\ AloneOk(x, e)}}
         ELSE IF f \in Single THEN Return(st, e.t, ResultOf(f, e)) ELSE {}
    [] e.op = "End" -> {c \in st : \A t \in Threads : c.th[t] = Idle}
    [] e.op = "Ran" -> st
    [] OTHER -> {}
Step(st, e) == LET n == Next1(st, e) IN IF n = {} THEN {} ELSE {n}
Ops == {"Setup", "Call", "Ret", "End", "Ran"}
=============================================================================
