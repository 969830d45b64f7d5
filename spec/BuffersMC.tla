----------------------------- MODULE BuffersMC -----------------------------
EXTENDS Buffers, Json
CONSTANTS MAXCAP, MAXSTR, EMIT, PART
VARIABLE st
vars == <<st>>
Strs == {SubSeq(<<97, 98, 99, 100>>, 1, i) : i \in 0 .. MAXSTR}
N == {-1} \cup 0 .. MAXCAP
CCalls ==
  [op : {"CaInit", "CaResize"}, n : N, refused : {0, 1}, cap : {0}]
    \cup [op : {"CaExpand"}, n : N, refused : {0, 1}, cap : 0 .. MAXCAP]
    \cup [op : {"CaWrap"}, n : 0 .. MAXCAP, text : {NULL} \cup Strs, refused : {0}, cap : {0}]
    \cup [op : {"CaFini"}, refused : {0}, cap : {0}]
    \cup [op : {"CaPrintf"}, a : Strs, num : {7}, b : {<<>>}, refused : {0, 1}, cap : 0 .. MAXCAP]
    \cup [op : {"CaStrcpy", "CaStrcat", "CaMemcpy"}, str : Strs, refused : {0, 1}, cap : 0 .. MAXCAP]
    \cup [op : {"CaStrncat"}, str : Strs, n : 0 .. MAXSTR, refused : {0, 1}, cap : 0 .. MAXCAP]
UCalls ==
  [op : {"UaInit", "UaResize"}, n : N, refused : {0, 1}]
    \cup [op : {"UaFill"}, str : Strs, refused : {0}]
    \cup [op : {"UaFini"}, refused : {0}]
Calls == IF PART = "c" THEN CCalls ELSE UCalls
Fits(c) == c.op = "CaWrap" => (c.text # NULL => Len(c.text) + 1 <= c.n)
(* print only the growth the code chooses *)
Grow(c, n) == LET b == st.c IN c.cap = (IF n <= b.cap THEN 0 ELSE Max2(n, b.cap + b.cap \div 2))
Usual(c) ==
  CASE c.op = "CaExpand" -> Grow(c, c.n)
    [] c.op = "CaPrintf" -> Grow(c, Len(Text(c)) + 1)
    [] c.op = "CaStrcpy" -> Grow(c, Len(c.str) + 1)
    [] c.op = "CaMemcpy" -> Grow(c, Len(c.str))
    [] c.op = "CaStrcat" -> Grow(c, Max2(Len(st.c.buf) - 1, 0) + Len(c.str) + 1)
    [] c.op = "CaStrncat" -> Grow(c, Max2(Len(st.c.buf) - 1, 0) + Len(Head2(c.str, c.n)) + 1)
    [] OTHER -> TRUE
Init == st = Init0
Next == \E c \in Calls : Fits(c) /\ \E r \in Do(st, c) :
          /\ r.s.c.cap <= MAXCAP /\ (EMIT => Usual(c))
          /\ st' = r.s
          /\ ((EMIT /\ c.refused = 0) => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
Sane ==
  /\ Len(st.c.buf) <= st.c.cap /\ Len(st.u.buf) <= st.u.cap
  /\ (st.c.null => st.c.cap = 0) /\ (st.u.null => st.u.cap = 0)
(* appending to a terminated text concatenates *)
Terminated(b) == Len(b.buf) > 0 /\ b.buf[Len(b.buf)] = 0
AppendIsConcat == (st.c.valid /\ Terminated(st.c)) => \A s \in Strs :
  \A x \in DoC(st.c, [op |-> "CaStrcat", str |-> s, refused |-> 0, cap |-> 2 * MAXCAP + MAXSTR + 8]) :
     x.ret = OK /\ x.s.buf = Before(st.c) \o s \o <<0>> /\ x.s.cap >= Len(x.s.buf)
NeverShrinksOnWrite == [][(st.c.valid /\ st'.c.valid /\ Len(st'.c.buf) > st.c.cap) => st'.c.cap > st.c.cap]_vars
(* a refused allocation is contained (C07): the call does what it would have done without, or fails and
   leaves the content as it was *)

Fresh(b) == b.null /\ b.cap = 0 /\ Len(b.buf) = 0      \* what a failed start leaves
Contained == \A c \in {x \in Calls : x.refused > 0} : \A r \in Do(st, c) :
  \/ r \in Do(st, [c EXCEPT !.refused = 0])
  \/ /\ r.ret # OK
     /\ \/ r.s = st
        \/ c.op = "CaInit" /\ r.s.u = st.u /\ Fresh(r.s.c)
        \/ c.op = "UaInit" /\ r.s.c = st.c /\ Fresh(r.s.u)
        \/ c.op = "CaPrintf" /\ r.s.u = st.u /\ r.s.c.cap = st.c.cap     \* it was replacing that text
=============================================================================
