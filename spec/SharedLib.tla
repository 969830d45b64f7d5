----------------------------- MODULE SharedLib -----------------------------
(* Handles of shared libraries (C20).  State: the library each handle holds, 0 when it holds none.
   Library l has the symbols Syms[l]: the name and the value it yields when used. *)
EXTENDS Common

Handles == 0 .. 2
Libs == 1 .. 3
Init0 == [h \in Handles |-> 0]
FA == <<102, 97>>     \* fa, only in the first library
FB == <<102, 98>>     \* fb, only in the second
FC == <<102, 99>>     \* fc, in all, with a different result in each
DC == <<100, 99>>     \* dc, data in the first and third
Value(l, n) ==        \* 0 when the library has no such symbol
  CASE n = FA /\ l = 1 -> 101
    [] n = FB /\ l = 2 -> 202
    [] n = FC /\ l # 0 -> 10 + l
    [] n = DC /\ l \in {1, 3} -> 500 + l
    [] OTHER -> 0

Res(s, ret) == [s |-> s, ret |-> ret]
Hold(st, h, l) == [st EXCEPT ![h] = l]
Do(st, c) ==
  CASE c.op = "SlLoad" ->
         IF c.h \notin Handles \/ ~c.given \/ ~c.valid \/ st[c.h] # 0 THEN {Res(st, INVALID)}
         ELSE IF c.lib \notin Libs THEN {Res(st, ERROR)}
         ELSE IF c.infofail THEN {Res(st, ERROR)}
         ELSE IF c.refused > 0 THEN {Res(st, BADALLOC)}
         ELSE {Res(Hold(st, c.h, c.lib), OK)}
    [] c.op = "SlUnload" ->
         IF c.h \notin Handles \/ st[c.h] = 0 THEN {Res(st, INVALID)}
         ELSE {Res(Hold(st, c.h, 0), IF c.closefail THEN ERROR ELSE OK)}
    [] c.op = "SlSym" -> {Res(st, IF c.h \notin Handles \/ c.n = NULL THEN 0 ELSE Value(st[c.h], c.n))}
    [] OTHER -> {}

(* what can be seen of the handles, and which libraries are in the process *)
Observed(st, e) ==
  /\ \A h \in Handles : e.loaded[h + 1] = (IF st[h] = 0 THEN 0 ELSE 1) /\ e.path[h + 1] = st[h]
  /\ \A l \in Libs : (e.resident[l] = 1) = (\E h \in Handles : st[h] = l)
  /\ e.live = Cardinality({h \in Handles : st[h] # 0})
NameOk(e) ==
  LET s == IF e.debug THEN <<100, 46, 115, 111>> ELSE <<46, 115, 111>>
      t == <<108, 105, 98>> \o e.n \o s
  IN IF e.n = NULL \/ ~e.buf THEN e.ret = INVALID
     ELSE IF e.sz <= Len(t) THEN e.ret = ERROR
     ELSE e.ret = OK /\ e.out = t

Agrees(x, e) ==
  CASE e.op = "SlSym" -> /\ e.has = (x.ret # 0) /\ e.has2 = e.has /\ e.got = e.has
                         /\ (e.got => e.val = x.ret)
    [] e.op = "SlUnload" -> e.ret = x.ret /\ (e.h \in Handles /\ x.ret # INVALID => e.zero)
    [] OTHER -> e.ret = x.ret
Step(st, e) ==
  IF ~LedgerOk(e) THEN {}
  ELSE IF e.op = "SlName" THEN (IF (NameOk(e) \/ (Injected(e) /\ e.ret \in Failing)) /\ e.calls = 0 THEN {st} ELSE {})
  ELSE {x.s : x \in {y \in Do(st, e) : Agrees(y, e) /\ Observed(y.s, e)}}
Ops == {"SlLoad", "SlUnload", "SlSym", "SlName"}
=============================================================================
