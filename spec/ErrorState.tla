----------------------------- MODULE ErrorState -----------------------------
(* Thread-local error state (properties C09, C10, C29).  One record per thread; a call made by a thread
   reads and changes the record of that thread alone. *)
EXTENDS Common

MSGMAX == 767     \* characters kept of a message (768 with the terminator)
FILEMAX == 228    \* characters kept of a file name
FMTMAX == 1023    \* characters of a message formatted by the macros
Threads == 0 .. 3
NoError == [init |-> FALSE, set |-> FALSE, m |-> <<>>, f |-> <<>>, ln |-> <<48>>]
Init0 == [t \in Threads |-> NoError]

NotSet == <<101,114,114,111,114,32,110,111,116,32,115,101,116>>   \* "error not set"
At == <<44,32,97,116,32>>                                          \* ", at "
Head4 == <<104,101,97,100>>                                        \* "head"
Colon == <<58>>
ErrString(r) == IF r.set THEN r.m \o At \o r.f \o Colon \o r.ln ELSE NotSet

Record(r, msg, file, line) ==
  [r EXCEPT !.set = TRUE, !.m = Head2(msg, MSGMAX), !.f = Head2(file, FILEMAX), !.ln = line]
Cleared(r) == [r EXCEPT !.set = FALSE, !.m = <<>>, !.f = <<>>, !.ln = <<48>>]
(* "x argument is null", "nothing there", "bad allocator" *)
ArgNull == <<120,32,97,114,103,117,109,101,110,116,32,105,115,32,110,117,108,108>>
Nothing == <<110,111,116,104,105,110,103,32,116,104,101,114,101>>
BadAllocator == <<98,97,100,32,97,108,108,111,99,97,116,111,114>>
Fmt(msg, num) == Head2(msg \o <<124>> \o Dec(num), FMTMAX)      \* "%s|%d"

(* the set of records the calling thread may have afterwards, with the return code *)
Res(s, ret) == [s |-> s, ret |-> ret]
DoT(r, c) ==
  CASE c.op = "ErSet" ->
         {Res(IF c.msg = NULL \/ c.file = NULL THEN r ELSE Record(r, c.msg, c.file, c.line), 0)}
    [] c.op = "ErSelf" -> {Res(Record(r, r.m, r.f, c.line), 0)}
    [] c.op = "ErMacro" ->
         LET prev == ErrString(r) IN
         {Res(CASE c.mode = 0 -> IF c.msg = NULL THEN r ELSE Record(r, c.msg, c.file, c.line)
                [] c.mode = 1 -> Record(r, Fmt(c.msg, c.num), c.file, c.line)
                [] c.mode = 2 -> Record(r, Head2(Head4 \o <<58, 32>> \o prev, FMTMAX), c.file, c.line)
                [] OTHER -> Record(r, Head2(c.msg \o <<124>> \o Dec(c.num) \o <<58, 32>> \o prev, FMTMAX),
                                   c.file, c.line), 0)}
           \* with no previous error, appending has the same behaviour as setting
           \cup (IF ~r.set /\ c.mode = 2 THEN {Res(Record(r, Head4, c.file, c.line), 0)} ELSE {})
           \* a failure injected into formatting: reported on standard error, no message
           \cup (IF Injected(c) /\ c.mode > 0 THEN {Res(IF c.mode = 1 THEN r ELSE Cleared(r), 0)} ELSE {})
           \cup (IF ~r.set /\ c.mode = 3 THEN {Res(Record(r, Fmt(c.msg, c.num), c.file, c.line), 0)} ELSE {})
    [] c.op = "ErCheck" ->
         IF c.given THEN {Res(r, OK)}
         ELSE CASE c.kind = 0 -> {Res(Record(r, ArgNull, c.file, c.line), INVALID)}
                [] c.kind = 1 -> {Res(Record(r, Nothing, c.file, c.line), ERROR)}
                [] c.kind = 2 -> {Res(r, BADALLOC)}
                [] OTHER -> {Res(Record(r, BadAllocator, c.file, c.line), ERROR)}
    \* writing on standard error: the variants which append the previous error also clear it
    [] c.op = "ErFw" -> {Res(IF c.mode < 2 THEN r ELSE Cleared(r), 0)}
    [] c.op = "ErReset" -> {Res(Cleared(r), 0)}
    [] c.op \in {"ErRead", "ErLook"} -> {Res(r, 0)}
    [] c.op = "ErInit" ->
         IF r.init THEN {Res(r, OK)}                       \* repeated initialisation does nothing
         ELSE IF ~c.valid THEN {Res(r, INVALID)}
         ELSE {Res([Cleared(r) EXCEPT !.init = TRUE], OK)}
              \cup (IF r.set THEN {Res([r EXCEPT !.init = TRUE], OK)} ELSE {})
    [] OTHER -> {}

Do(st, c) ==
  IF c.t \notin Threads THEN {}
  ELSE IF c.op = "ErExit" THEN {Res([st EXCEPT ![c.t] = NoError], 0)}
  ELSE {Res([st EXCEPT ![c.t] = x.s], x.ret) : x \in DoT(st[c.t], c)}

Observed(r, e) ==
  /\ e.isset = r.set
  /\ (r.set => e.m = r.m /\ e.f = r.f /\ e.ln = r.ln /\ e.term)

(* ---- what is written on standard error (property C29) ---- *)
Occurs(txt, q, from) ==           \* where q stands in single quotes in txt, at or after from
  {i \in from .. Len(txt) - Len(q) - 1 : /\ txt[i] = 39 /\ txt[i + Len(q) + 1] = 39
                                        /\ SubSeq(txt, i + 1, i + Len(q)) = q}
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* the report of an error that nobody handled: it names the old error, then the new one *)
Reported(r, s, txt) ==
  \E i \in Occurs(txt, ErrString(r), 1) : Occurs(txt, ErrString(s), i + Len(ErrString(r)) + 1) # {}
(* r: the error state before a call which records msg and file, s: the state after it *)
Overwrites(r, s, msg, file, txt) ==
  LET cut == Len(msg) > MSGMAX \/ Len(file) > FILEMAX                 \* said when something does not fit
      silent == IF cut THEN txt # <<>> ELSE txt = <<>>
  IN IF ~r.set \/ msg = r.m THEN silent
     ELSE \/ Reported(r, s, txt)
          \* a message that merely begins like the old one, or was cut, may or may not count as another error
          \/ silent /\ (Starts(ErrString(r), msg) \/ Head2(msg, MSGMAX) = r.m)
Chained(r, e) == IF e.mode = 2 THEN Head2(Head4 \o <<58, 32>> \o ErrString(r), FMTMAX)
                 ELSE Head2(e.msg \o <<124>> \o Dec(e.num) \o <<58, 32>> \o ErrString(r), FMTMAX)
Previous(r, txt, head) ==
  \/ txt = head \o Head2(<<58, 32>> \o ErrString(r), FMTMAX)
  \/ ~r.set /\ txt = head
ErrOk(r, s, e) ==
  CASE Injected(e) /\ e.op \in {"ErMacro", "ErFw"} -> TRUE
    [] e.op = "ErFw" ->
         (CASE e.mode = 0 -> e.text = e.msg
            [] e.mode = 1 -> e.text = Fmt(e.msg, e.num)
            [] e.mode = 2 -> Previous(r, e.text, e.msg)
            [] OTHER -> Previous(r, e.text, Fmt(e.msg, e.num)))
    [] e.err = NULL -> TRUE                                        \* not observed
    [] e.op = "ErSet" -> IF e.msg = NULL \/ e.file = NULL THEN e.err # <<>> ELSE Overwrites(r, s, e.msg, e.file, e.err)
    [] e.op = "ErSelf" -> e.err = <<>>
    [] e.op = "ErMacro" ->
         IF e.mode = 0 THEN (IF e.msg = NULL THEN e.err # <<>> ELSE Overwrites(r, s, e.msg, e.file, e.err))
         ELSE IF e.mode = 1 THEN Overwrites(r, s, Fmt(e.msg, e.num), e.file, e.err)
         ELSE Overwrites(NoError, s, Chained(r, e), e.file, e.err)     \* the previous error is in the new one
    [] e.op = "ErCheck" -> IF e.given \/ e.kind = 2 THEN e.err = <<>> ELSE Overwrites(r, s, s.m, e.file, e.err)
    [] e.op = "ErInit" -> IF ~r.init /\ ~e.valid THEN e.err # <<>> ELSE r.set \/ e.err = <<>>
    [] OTHER -> e.err = <<>>

OutOk(r, e) ==
  CASE e.op = "ErRead" -> e.str = ErrString(r) /\ e.same /\ e.sterm
    [] OTHER -> TRUE

HasRet(e) == e.op \in {"ErInit", "ErCheck"}
Step(st, e) ==
  IF ~LedgerOk(e) \/ e.t \notin Threads THEN {}
  ELSE IF e.op = "ErExit" THEN {[st EXCEPT ![e.t] = NoError]}
  ELSE {x.s : x \in {y \in Do(st, e) : /\ (HasRet(e) => y.ret = e.ret)
                                       /\ Observed(y.s[e.t], e)
                                       /\ OutOk(st[e.t], e)
                                       /\ ErrOk(st[e.t], y.s[e.t], e)}}
Ops == {"ErSet", "ErSelf", "ErMacro", "ErCheck", "ErReset", "ErRead", "ErLook", "ErInit", "ErExit", "ErFw"}
=============================================================================
