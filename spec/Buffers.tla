------------------------------ MODULE Buffers ------------------------------
(* Growable character and byte buffers (property C06): one of each.
   A buffer is its storage (missing, owned or the caller's), capacity and the first `len` bytes. *)
EXTENDS Common

NoChar == [null |-> TRUE, owned |-> FALSE, valid |-> FALSE, cap |-> 0, buf |-> <<>>]
NoByte == [null |-> TRUE, valid |-> FALSE, cap |-> 0, buf |-> <<>>]
Init0 == [c |-> NoChar, u |-> NoByte]
Res(b, ret) == [s |-> b, ret |-> ret]
NoMemory(b, c) == IF c.refused > 0 THEN {Res(b, BADALLOC)} ELSE {}

(* growing storage supplied by the caller moves the content into storage of its own, with the
   last byte taken over made a terminator *)
Moved(b, n) ==
  LET m == Min2(n, b.cap) q == Head2(b.buf, n) IN
  IF b.owned \/ m = 0 THEN q ELSE [i \in 1 .. Len(q) |-> IF i = m THEN 0 ELSE q[i]]
Resized(b, n) == [b EXCEPT !.null = FALSE, !.owned = TRUE, !.cap = n, !.buf = Moved(b, n)]
(* capacities expansion may choose; c.cap is the one observed *)
Expansions(b, n, c) ==
  IF n <= b.cap THEN {b}
  ELSE IF c.cap >= Max2(n, b.cap + b.cap \div 2) THEN {Resized(b, c.cap)} ELSE {}
(* a call which needs room for n bytes and then makes the content q *)
Write(b, n, q, c) ==
  {Res([x EXCEPT !.buf = q], OK) : x \in Expansions(b, n, c)}
    \cup (IF n > b.cap THEN NoMemory(b, c) ELSE {})
Text(c) == c.a \o Dec(c.num) \o c.b
(* what a print which could not get its room leaves: as much of the text as fitted, or nothing *)
Overlay(b, t) ==
  LET q == Head2(t, b.cap - 1) \o <<0>> IN
  [b EXCEPT !.buf = [i \in 1 .. Len(b.buf) |-> IF i <= Len(q) THEN q[i] ELSE b.buf[i]]]
Before(b) == SubSeq(b.buf, 1, Len(b.buf) - 1)      \* without the terminator

DoC(b, c) ==
  CASE c.op = "CaInit" ->
         IF ~b.null /\ b.owned THEN {}             \* the caller must not lose a buffer
         ELSE IF c.n = -1 THEN {Res([NoChar EXCEPT !.owned = TRUE, !.valid = TRUE], BADALLOC)}
         ELSE {Res([null |-> c.n = 0, owned |-> TRUE, valid |-> TRUE, cap |-> c.n, buf |-> <<>>], OK)}
              \cup (IF c.refused > 0 THEN {Res([NoChar EXCEPT !.owned = TRUE, !.valid = TRUE], BADALLOC)} ELSE {})
    [] c.op = "CaWrap" ->
         IF ~b.null /\ b.owned THEN {}
         ELSE {Res([null |-> c.n = 0, owned |-> FALSE, valid |-> TRUE, cap |-> c.n,
               buf |-> IF c.text = NULL THEN <<>> ELSE c.text \o <<0>>], 0)}
    [] c.op = "CaFini" ->
         IF b.owned /\ ~b.valid THEN {Res(b, ERROR)}
         ELSE {Res([b EXCEPT !.null = TRUE, !.cap = 0, !.buf = <<>>, !.owned = o], OK) : o \in BOOLEAN}
    [] c.op = "CaResize" ->
         IF c.n = 0 THEN {Res(b, INVALID)}
         ELSE IF ~b.valid THEN {Res(b, ERROR)}
         ELSE IF c.n = -1 THEN {Res(b, BADALLOC)}
         ELSE IF c.n = b.cap THEN {Res(b, OK)}
         ELSE {Res(Resized(b, c.n), OK)} \cup NoMemory(b, c)
    [] c.op = "CaExpand" ->
         IF c.n # -1 /\ c.n <= b.cap THEN {Res(b, OK)}
         ELSE IF ~b.valid THEN {Res(b, ERROR)}
         ELSE IF c.n = -1 THEN {Res(b, BADALLOC)}
         ELSE {Res(x, OK) : x \in Expansions(b, c.n, c)} \cup NoMemory(b, c)
    [] c.op = "CaPrintf" ->
         LET t == Text(c) n == Len(t) + 1 IN
         IF n > b.cap /\ ~b.valid THEN {Res(b, ERROR)}
         ELSE Write(b, n, t \o <<0>>, c)
              \cup (IF n > b.cap /\ c.refused > 0 /\ b.cap > 0 THEN {Res(Overlay(b, t), BADALLOC)} ELSE {})
    [] c.op = "CaStrcpy" ->
         IF Len(c.str) + 1 > b.cap /\ ~b.valid THEN {Res(b, ERROR)}
         ELSE Write(b, Len(c.str) + 1, c.str \o <<0>>, c)
    [] c.op = "CaMemcpy" ->
         IF Len(c.str) > b.cap /\ ~b.valid THEN {Res(b, ERROR)}
         ELSE Write(b, Len(c.str), c.str, c)
    [] c.op \in {"CaStrcat", "CaStrncat"} ->
         LET add == IF c.op = "CaStrcat" THEN c.str ELSE Head2(c.str, c.n)
             q == (IF b.buf = <<>> THEN <<>> ELSE Before(b)) \o add \o <<0>> IN
         IF Len(q) > b.cap /\ ~b.valid THEN {Res(b, ERROR)} ELSE Write(b, Len(q), q, c)
    [] c.op = "CaNulls" -> {Res(b, 0)}
    [] OTHER -> {}

DoU(b, c) ==
  CASE c.op = "UaInit" ->
         IF ~b.null THEN {}
         ELSE IF c.n = -1 THEN {Res([NoByte EXCEPT !.valid = TRUE], BADALLOC)}
         ELSE {Res([null |-> c.n = 0, valid |-> TRUE, cap |-> c.n, buf |-> <<>>], OK)}
              \cup (IF c.refused > 0 THEN {Res([NoByte EXCEPT !.valid = TRUE], BADALLOC)} ELSE {})
    [] c.op = "UaFill" -> {Res([b EXCEPT !.buf = Head2(c.str, b.cap)], 0)}
    [] c.op = "UaResize" ->
         IF c.n = 0 \/ ~b.valid THEN {Res(b, INVALID)}
         ELSE IF c.n = -1 THEN {Res(b, BADALLOC)}
         ELSE IF c.n = b.cap THEN {Res(b, OK)}
         ELSE {Res([b EXCEPT !.null = FALSE, !.cap = c.n, !.buf = Head2(b.buf, c.n)], OK)} \cup NoMemory(b, c)
    [] c.op = "UaFini" ->
         IF ~b.valid THEN {Res(b, INVALID)} ELSE {Res([NoByte EXCEPT !.valid = TRUE], OK)}
    [] c.op = "UaNulls" -> {Res(b, 0)}
    [] OTHER -> {}

COps == {"CaInit", "CaWrap", "CaFini", "CaResize", "CaExpand", "CaPrintf", "CaStrcpy", "CaMemcpy",
         "CaStrcat", "CaStrncat", "CaNulls"}
UOps == {"UaInit", "UaFill", "UaResize", "UaFini", "UaNulls"}
Ops == COps \cup UOps
Do(st, c) ==
  IF c.op \in COps THEN {Res([st EXCEPT !.c = x.s], x.ret) : x \in DoC(st.c, c)}
  ELSE {Res([st EXCEPT !.u = x.s], x.ret) : x \in DoU(st.u, c)}

(* only the bytes below the capacity can be seen *)
ObservedC(b, e) ==
  /\ e.null = b.null /\ e.cap = b.cap /\ e.len = Len(b.buf) /\ e.backed
  /\ e.len <= e.cap
  /\ e.buf = b.buf
  /\ (~b.null => e.owned = b.owned /\ e.user = ~b.owned)
  /\ (e.op = "CaInit" /\ ~b.null => e.first = 0)
ObservedU(b, e) ==
  /\ e.null = b.null /\ e.cap = b.cap /\ e.len = Len(b.buf) /\ e.backed /\ e.buf = b.buf
Live(st) == (IF ~st.c.null /\ st.c.owned THEN 1 ELSE 0) + (IF st.u.null THEN 0 ELSE 1)
OutOk(e) ==
  CASE e.op = "CaNulls" -> e.rets = <<ERROR, ERROR, ERROR, ERROR, ERROR, ERROR>>
    [] e.op = "UaNulls" -> e.rets = <<INVALID, INVALID, INVALID, INVALID, INVALID>>
    [] OTHER -> TRUE
Step(st, e) ==
  IF ~LedgerOk(e) THEN {}
  ELSE {x.s : x \in {y \in Do(st, e) :
           /\ y.ret = e.ret
           /\ (IF e.op \in COps THEN ObservedC(y.s.c, e) ELSE ObservedU(y.s.u, e))
           /\ OutOk(e)
           /\ e.live = Live(y.s)}}
=============================================================================
