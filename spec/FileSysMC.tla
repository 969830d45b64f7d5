----------------------------- MODULE FileSysMC -----------------------------
(* A small file system: names a and b, the program makes and removes directories, files and links,
   the library is asked and makes directories. *)
EXTENDS FileSys, Json
CONSTANTS DEPTH, NODES, LINKS, ITERS, EMIT
VARIABLES st, shown
vars == <<st, shown>>
NS == {<<97>>, <<98>>}
RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE Paths(n - 1) \cup {Append(p, x) : p \in {q \in Paths(n - 1) : Len(q) = n - 1}, x \in NS}
PS == Paths(DEPTH) \ {<<>>}
Text(p) == JoinAll(p)
Targets == {<<97>>, <<98>>, <<46, 46>>, <<97, 47, 98>>, <<99>>}
(* no link leads out of the modelled directory *)
Fit(p, t) == IF Len(p) = 1 /\ t = <<46, 46>> THEN <<46>> ELSE t
Dir == Root
File(z, m) == [k |-> 2, m |-> m, z |-> z, a |-> 0, t |-> <<>>]
Link(t) == [k |-> 3, m |-> 0, z |-> <<48>>, a |-> 0, t |-> t]
Big == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>   \* 2^32
Free == {p \in PS : p \notin DOMAIN st.nodes /\ Is(st.nodes, Front(p), 1)}
Idle == DOMAIN st.iters = {}
Program ==   \* [call to print, nodes afterwards]
  IF ~Idle THEN {}
  ELSE {[c |-> [op |-> "FsPut", p |-> p, k |-> x.k, m |-> x.m, z |-> x.z], nodes |-> Put(st.nodes, p, x)] :
          p \in IF Cardinality(DOMAIN st.nodes) <= NODES THEN Free ELSE {}, x \in {Dir, File(<<51>>, 256), File(Big, 128)}}
       \cup {[c |-> [op |-> "FsSym", p |-> p, t |-> Fit(p, t)], nodes |-> Put(st.nodes, p, Link(Fit(p, t)))] :
          p \in IF LINKS /\ Cardinality(DOMAIN st.nodes) <= NODES THEN Free ELSE {}, t \in Targets}
       \cup {[c |-> [op |-> "FsRm", p |-> p], nodes |-> Del(st.nodes, p)] :
          p \in {q \in DOMAIN st.nodes \ {<<>>} : Below(st.nodes, q) = {}}}
Strings == {Text(p) : p \in PS \cup {<<>>}} \cup {Text(p) \o <<47>> : p \in PS} \cup {Text(p) \o <<47, 46>> : p \in {<<<<97>>>>}}
PathArgs == {[abs |-> 1, p |-> s, rl |-> 10] : s \in Strings} \cup {[abs |-> 0, p |-> s, rl |-> 10] : s \in {<<>>, <<97>>, <<97, 47, 98>>}}
            \cup {[abs |-> 2, p |-> NULL, rl |-> 10]}
Q == {[op |-> "FsQ"] @@ a : a \in PathArgs}
M == {[op |-> "FsMkdir", mode |-> 448] @@ a : a \in PathArgs}
S == {[op |-> "FsSize", depth |-> d, how |-> h, refused |-> 0, sysref |-> 0] @@ a : a \in PathArgs, d \in IF EMIT THEN 0 .. 3 ELSE {0}, h \in {0}}
I == {[op |-> "FsIter", h |-> 1, how |-> 0, refused |-> 0, sysref |-> 0] @@ a : a \in {x \in PathArgs : ITERS /\ Idle}}
Key(s) == ToString(<<s.nodes, s.iters>>)
Emit(c, n) == EMIT => PrintT(ToJson(<<Key(st), c, Key(n)>>))
Init == st = Init0 /\ shown = {}
DoProgram == \E x \in Program : st' = [st EXCEPT !.nodes = x.nodes] /\ shown' = {} /\ Emit(x.c, st')
DoMkdir == Idle /\ Cardinality(DOMAIN st.nodes) <= NODES /\ \E c \in M : \E r \in Do(st, c) : st' = r.s /\ shown' = {} /\ Emit(c, st')
DoAsk == \E c \in Q \cup S : \E r \in Do(st, c) : st' = r.s /\ UNCHANGED shown /\ Emit(c, st')
Names == NS \cup Specials \cup {NULL}
DoIter == \E c \in I : \E r \in Do(st, c) :
  IF r.ret THEN \E n \in Names : st' \in Show(r.s, 1, n) /\ shown' = {n} /\ (EMIT => TRUE)
  ELSE st' = r.s /\ shown' = {}
DoNext == ~Idle /\ \E n \in Names : st' \in Show(st, 1, n) /\ shown' = shown \cup {n}
DoEnd == ~Idle /\ st' = [st EXCEPT !.iters = Empty] /\ shown' = {}
Next == DoProgram \/ DoMkdir \/ (EMIT /\ DoAsk) \/ DoIter \/ DoNext \/ DoEnd
Spec == Init /\ [][Next]_vars

WellFormed == \A p \in DOMAIN st.nodes \ {<<>>} : Is(st.nodes, Front(p), 1)
Dirs == {p \in DOMAIN st.nodes : st.nodes[p].k = 1}
RECURSIVE Rec(_, _)
Rec(d, k) ==   \* the size of a directory, from its children
  LET own == {Append(d, n) : n \in Children(st.nodes, d)}
      RECURSIVE Subs(_)
      Subs(T) == IF T = {} THEN ZeroPad(<<48>>, 20) ELSE LET x == CHOOSE y \in T : TRUE IN Plus(Rec(x, k - 1), Subs(T \ {x}))
  IN Plus(Total(st.nodes, {p \in own : st.nodes[p].k = 2}), IF k = 1 THEN ZeroPad(<<48>>, 20) ELSE Subs({p \in own : st.nodes[p].k = 1}))
SizeLaw == \A d \in Dirs : /\ DirSize(st.nodes, d, 0) = DirSize(st.nodes, d, DEPTH)
                           /\ \A k \in 1 .. DEPTH : DirSize(st.nodes, d, k) = Rec(d, k)
SizeTotal == \A c \in S : Cardinality(Do(st, c)) = 1 /\ \A r \in Do(st, c) : r.s = st /\ (r.ret = OK <=> IsDir(st, c))
MkdirLaw == \A c \in M : /\ Cardinality(Do(st, c)) = 1
  /\ \A r \in Do(st, c) :
       /\ (r.ret => c.abs = 1 /\ IsDir(r.s, c) /\ Do(r.s, c) = {[s |-> r.s, ret |-> TRUE, size |-> NULL]})
       /\ (~r.ret => r.s = st /\ (c.abs # 1 \/ ~IsDir(st, c)))
       /\ (\A p \in DOMAIN st.nodes : p \in DOMAIN r.s.nodes /\ r.s.nodes[p] = st.nodes[p])
       /\ Cardinality(DOMAIN r.s.nodes \ DOMAIN st.nodes) <= 1
       /\ (\A p \in DOMAIN r.s.nodes \ {<<>>} : Is(r.s.nodes, Front(p), 1))
QueryLaw == \A c \in Q : LET q == Query(st, c) r == Resolve(st, c) IN
  /\ (r.ok => r.p \in DOMAIN st.nodes /\ st.nodes[r.p].k # 3)
  /\ ~(q.di /\ q.fi) /\ (q.di \/ q.fi \/ q.r \/ q.w => q.ex) /\ (q.rw <=> q.r /\ q.w)
  /\ (q.size # <<48>> => q.fi)
  /\ (c.abs # 2 /\ c.p # <<>> /\ Last(c.p) \in {47} /\ q.ex => q.di)
IterLaw == ~Idle => \A d \in Dirs :
  LET it == st.iters[1] IN (shown \ (Specials \cup {NULL})) \cap it.rem = {} /\ (NULL \in shown => it.rem = {})
=============================================================================
