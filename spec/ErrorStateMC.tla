---------------------------- MODULE ErrorStateMC ----------------------------
(* Bounded exhaustive exploration of ErrorState: every interleaving of the calls of a few threads. *)
EXTENDS ErrorState, Json
CONSTANTS T, EMIT, MAXLEN
MSGS == {<<>>, <<97>>, NULL}
FILES == {<<70>>, NULL}
VARIABLE st
vars == <<st>>
L == <<55>>
Calls ==
  {[op |-> "ErSet", t |-> t, msg |-> m, file |-> f, line |-> L] : t \in T, m \in MSGS, f \in FILES}
    \cup {[op |-> "ErSelf", t |-> t, line |-> <<57>>] : t \in T}
    \cup {[op |-> "ErMacro", t |-> t, mode |-> d, msg |-> <<97>>, num |-> 5, file |-> <<70>>, line |-> L] :
            t \in T, d \in 0 .. 3}
    \cup {[op |-> o, t |-> t] : o \in {"ErReset", "ErRead", "ErExit"}, t \in T}
    \cup {[op |-> "ErFw", t |-> t, mode |-> d, msg |-> <<97>>, num |-> 5] : t \in T, d \in 0 .. 3}
    \cup {[op |-> "ErCheck", t |-> t, kind |-> k, given |-> g, file |-> <<70>>, line |-> L] : t \in T, k \in 0 .. 3, g \in BOOLEAN}
    \cup {[op |-> "ErInit", t |-> t, valid |-> v] : t \in T, v \in BOOLEAN}
Init == st = Init0
Next == \E c \in Calls : \E r \in Do(st, c) :
          /\ Len(r.s[c.t].m) <= MAXLEN
          /\ st' = r.s
          /\ (EMIT => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Sane ==
  \A t \in Threads :
    /\ ~st[t].set => st[t].m = <<>> /\ st[t].f = <<>>
    /\ Len(st[t].m) <= MSGMAX /\ Len(st[t].f) <= FILEMAX
    /\ Len(ErrString(st[t])) <= FMTMAX
(* a thread's calls concern that thread alone *)
Private == [][\A t, u \in Threads : (t # u /\ st'[t] # st[t]) => st'[u] = st[u]]_vars
Total == \A c \in Calls : Do(st, c) # {}
InitIdempotent ==
  \A t \in T : st[t].init => \A v \in BOOLEAN :
    DoT(st[t], [op |-> "ErInit", t |-> t, valid |-> v]) = {Res(st[t], OK)}
ReadingChangesNothing == \A t \in T : \A x \in DoT(st[t], [op |-> "ErRead", t |-> t]) : x.s = st[t]
(* an error that nobody handled can be lost only through a report, which names both *)
Texts(r, s) ==
  {<<>>, <<39>> \o ErrString(r) \o <<39>>, <<39>> \o ErrString(s) \o <<39>>,
   <<39>> \o ErrString(r) \o <<39, 10, 39>> \o ErrString(s) \o <<39>>, <<39>> \o ErrString(s) \o <<39, 39>> \o ErrString(r) \o <<39>>}
NothingLost ==
  \A t \in T : \A c \in {x \in Calls : x.op = "ErSet" /\ x.t = t /\ x.msg # NULL /\ x.file # NULL} : \A y \in DoT(st[t], c) :
    LET r == st[t]
        ok == {x \in Texts(r, y.s) : Overwrites(r, y.s, c.msg, c.file, x)}
    IN /\ (~r.set => ok = {<<>>})
       /\ (r.set /\ ~Starts(ErrString(r), c.msg) => ok = {<<39>> \o ErrString(r) \o <<39, 10, 39>> \o ErrString(y.s) \o <<39>>})
       /\ ok # {}
==============================================================================
