------------------------------ MODULE FileSys ------------------------------
(* The file system as the library queries it, the one change the library may make to it (a new
   directory), listings and directory sizes (C16), and the building of paths (C17).

   State
     nodes   what exists below the session's directory: path (a sequence of names) -> node
             [k 1 directory, 2 regular file, 3 symbolic link, 4 other; m permissions; z size as
             digits; a, t a link's target: whether absolute, and the text]
     cwd     the working directory,  home the HOME variable
     iters   open listings: what is still to be listed, whether the special entries may still come,
             and whether the end has been reached
     led     live blocks of the allocator after the last event
   A path given to a call: abs 0 as it is, 1 an absolute path below the session's directory (rl is the
   length of that prefix), 2 NULL. *)
EXTENDS Common

Root == [k |-> 1, m |-> 448, z |-> <<48>>, a |-> 0, t |-> <<>>]
Init0 == [nodes |-> [p \in {<<>>} |-> Root], cwd |-> <<>>, home |-> NULL, iters |-> Empty, led |-> 0]

(* ---- names and paths ---- *)
SLASH == 47
DOT == <<46>>
DOTDOT == <<46, 46>>
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) ==
  IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF s[i] = SLASH THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o SplitFrom(s, i + 1, <<>>)
  ELSE SplitFrom(s, i + 1, Append(cur, s[i]))
(* a trailing slash asks for a directory, as `.` does *)
Split(s) == SplitFrom(s, 1, <<>>) \o (IF s # <<>> /\ s[Len(s)] = SLASH THEN <<DOT>> ELSE <<>>)
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
NameMax == 255
PathMax == 4096
LinkMax == 40

(* ---- resolution: [ok, p] ---- *)
Fail == [ok |-> FALSE, p |-> <<>>]
Is(nodes, p, k) == p \in DOMAIN nodes /\ nodes[p].k = k
RECURSIVE Walk(_, _, _, _)
Walk(nodes, cur, cs, n) ==
  IF cs = <<>> THEN [ok |-> TRUE, p |-> cur]
  ELSE IF nodes[cur].k # 1 THEN Fail
  ELSE LET c == Head(cs)
           child == Append(cur, c)
       IN IF c = DOT THEN Walk(nodes, cur, Tail(cs), n)
          ELSE IF c = DOTDOT THEN (IF cur = <<>> THEN Fail ELSE Walk(nodes, Front(cur), Tail(cs), n))
          ELSE IF Len(c) > NameMax \/ child \notin DOMAIN nodes THEN Fail
          ELSE IF nodes[child].k = 3
               THEN IF n = 0 \/ (nodes[child].a = 0 /\ nodes[child].t = <<>>) THEN Fail
                    ELSE Walk(nodes, IF nodes[child].a = 1 THEN <<>> ELSE cur, Split(nodes[child].t) \o Tail(cs), n - 1)
          ELSE Walk(nodes, child, Tail(cs), n)
TooLong(c) == (IF c.abs = 1 THEN c.rl ELSE 0) + Len(c.p) >= PathMax
Start(st, c) == IF c.abs = 1 THEN <<>> ELSE st.cwd
(* a plain path which is not absolute is resolved from the working directory, one starting with a
   slash is outside of what is modelled *)
Resolve(st, c) ==
  IF c.abs = 2 \/ (c.abs = 0 /\ c.p = <<>>) \/ TooLong(c) THEN Fail
  ELSE Walk(st.nodes, Start(st, c), Split(c.p), LinkMax)
Node(st, r) == st.nodes[r.p]
Bit(m, b) == (m \div b) % 2 = 1
OwnerR(m) == Bit(m, 256)
OwnerW(m) == Bit(m, 128)
OwnerX(m) == Bit(m, 64)

Query(st, c) ==
  LET r == Resolve(st, c) IN
  IF ~r.ok THEN [ex |-> FALSE, di |-> FALSE, fi |-> FALSE, r |-> FALSE, w |-> FALSE, rw |-> FALSE, size |-> <<48>>]
  ELSE LET x == Node(st, r)
       IN [ex |-> TRUE, di |-> x.k = 1, fi |-> x.k = 2, r |-> OwnerR(x.m), w |-> OwnerW(x.m),
           rw |-> OwnerR(x.m) /\ OwnerW(x.m), size |-> IF x.k = 2 THEN x.z ELSE <<48>>]

(* ---- making a directory ---- *)
RECURSIVE DropDots(_)
DropDots(cs) == IF cs # <<>> /\ Last(cs) = DOT THEN DropDots(Front(cs)) ELSE cs
(* where the directory would be made: an absolute path whose parent exists and whose last name is free *)
Place(st, c) ==
  LET cs == SplitFrom(c.p, 1, <<>>)
      par == Walk(st.nodes, <<>>, Front(cs), LinkMax)
  IN IF c.abs # 1 \/ TooLong(c) \/ cs = <<>> \/ Last(cs) \in {DOT, DOTDOT} \/ Len(Last(cs)) > NameMax THEN Fail
     ELSE IF ~par.ok \/ ~Is(st.nodes, par.p, 1) \/ Append(par.p, Last(cs)) \in DOMAIN st.nodes THEN Fail
     ELSE [ok |-> TRUE, p |-> Append(par.p, Last(cs))]
IsDir(st, c) == LET r == Resolve(st, c) IN r.ok /\ Node(st, r).k = 1

(* ---- sizes ---- *)
Below(nodes, d) == {p \in DOMAIN nodes : Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d}
RECURSIVE SumFrom(_, _, _, _, _)
SumFrom(a, b, i, carry, acc) ==
  IF i = 0 THEN acc
  ELSE LET x == (a[i] - 48) + (b[i] - 48) + carry IN SumFrom(a, b, i - 1, x \div 10, <<48 + (x % 10)>> \o acc)
Plus(a, b) == SumFrom(ZeroPad(a, 20), ZeroPad(b, 20), 20, 0, <<>>)
FX == INSTANCE FiniteSetsExt
Total(nodes, S) == FX!FoldSet(LAMBDA p, sum : Plus(nodes[p].z, sum), ZeroPad(<<48>>, 20), S)
(* the regular files below directory d (itself at depth 1) in directories no deeper than the limit;
   links are neither counted nor followed *)
Counted(nodes, d, depth) == {p \in Below(nodes, d) : nodes[p].k = 2 /\ (depth = 0 \/ Len(p) - Len(d) <= depth)}
DirSize(nodes, d, depth) == Total(nodes, Counted(nodes, d, depth))
Children(nodes, d) == {Last(p) : p \in {x \in Below(nodes, d) : Len(x) = Len(d) + 1}}

(* ---- paths as text ---- *)
Join(l, r) == l \o <<SLASH>> \o r
RECURSIVE JoinAll(_)
JoinAll(p) == IF p = <<>> THEN <<>> ELSE <<SLASH>> \o Head(p) \o JoinAll(Tail(p))

(* ---- transitions: outcomes [s, ret, size] ---- *)
Res(s, ret) == [s |-> s, ret |-> ret, size |-> NULL]
Specials == {DOT, DOTDOT}
NodeOf(x) == [k |-> x[2], m |-> x[3], z |-> x[4], a |-> x[5], t |-> x[6]]
Tree(tree) == [p \in {<<>>} \cup {x[1] : x \in SeqToSet(tree)} |->
   IF p = <<>> THEN Root ELSE NodeOf(CHOOSE x \in SeqToSet(tree) : x[1] = p)]
Do(st, c) ==
  CASE c.op = "FsNew" -> {Res([Init0 EXCEPT !.home = st.home], OK)}
    [] c.op \in {"FsPut", "FsSym", "FsRm", "FsChmod"} -> {Res([st EXCEPT !.nodes = c.nodes], OK)}   \* the program's doing
    [] c.op = "FsCd" -> {Res([st EXCEPT !.cwd = c.at], OK)}
    [] c.op = "FsHome" -> {Res([st EXCEPT !.home = c.v], OK)}
    [] c.op = "FsQ" -> {Res(st, OK)}
    [] c.op = "FsMkdir" ->
         IF c.abs # 1 THEN {Res(st, FALSE)}
         ELSE IF IsDir(st, c) THEN {Res(st, TRUE)}
         ELSE LET w == Place(st, c)
              IN IF w.ok THEN {Res([st EXCEPT !.nodes = Put(st.nodes, w.p, [Root EXCEPT !.m = c.mode])], TRUE)} ELSE {Res(st, FALSE)}
    [] c.op = "FsSize" ->
         LET out == IF c.refused > 0 THEN {Res(st, BADALLOC), Res(st, ERROR)} ELSE {}
         IN IF c.abs = 2 \/ c.how = 2 THEN {Res(st, INVALID)}
            ELSE IF c.how = 3 THEN {Res(st, INVALID)} \cup (IF IsDir(st, c) THEN {} ELSE {Res(st, ERROR)})
            ELSE IF ~IsDir(st, c) THEN {Res(st, ERROR)}
            ELSE IF c.sysref > 0 THEN {Res(st, ERROR)} \cup out
            ELSE {[Res(st, OK) EXCEPT !.size = DirSize(st.nodes, Resolve(st, c).p, c.depth)]} \cup out
    [] c.op = "FsIter" ->
         IF c.how = 3 \/ ~IsDir(st, c) \/ c.sysref > 0 THEN {Res(st, FALSE)}
         ELSE {Res([st EXCEPT !.iters = Put(st.iters, c.h, [rem |-> Children(st.nodes, Resolve(st, c).p), opt |-> Specials])], TRUE)}
              \cup (IF c.refused > 0 THEN {Res(st, FALSE)} ELSE {})
    [] c.op = "FsNext" -> {Res(st, TRUE), Res(st, FALSE)}
    [] c.op = "FsEnd" -> {Res([st EXCEPT !.iters = Del(st.iters, c.h)], TRUE)}
    [] c.op \in {"FsJoin", "FsNative", "FsExpand", "FsCwd"} -> {Res(st, OK)}
    [] OTHER -> {}

(* an entry has been shown: NULL is the end of the listing *)
Show(st, h, name) ==
  LET it == st.iters[h] IN
  IF name = NULL THEN (IF it.rem = {} THEN {[st EXCEPT !.iters[h].opt = {}]} ELSE {})
  ELSE IF name \in it.rem THEN {[st EXCEPT !.iters[h].rem = @ \ {name}]}
  ELSE IF name \in it.opt THEN {[st EXCEPT !.iters[h].opt = @ \ {name}]}
  ELSE {}

OutOk(st, e) ==
  LET Str(s) == e.ret = s \/ (e.ret = NULL /\ e.refused > 0)
  IN CASE e.op = "FsQ" ->
            LET q == Query(st, e)
            IN e.ex = q.ex /\ e.di = q.di /\ e.fi = q.fi /\ e.r = q.r /\ e.w = q.w /\ e.rw = q.rw /\ e.size = q.size
       [] e.op = "FsJoin" -> IF e.l = NULL \/ e.r = NULL THEN e.ret = NULL ELSE Str(Join(e.l, e.r))
       [] e.op = "FsNative" -> IF e.p = NULL THEN e.ret = NULL ELSE Str(e.p)
       [] e.op = "FsExpand" ->
            IF e.p = NULL THEN e.ret = NULL
            ELSE IF e.p = <<>> \/ e.p[1] # 126 THEN Str(e.p)
            ELSE IF st.home \in {NULL, <<>>} THEN e.ret = NULL
            ELSE Str(st.home \o Tail(e.p))
       [] e.op = "FsCwd" ->
            LET d == e.root \o JoinAll(st.cwd)
            IN IF e.n > Len(d) THEN e.ret /\ e.dir = d ELSE ~e.ret
       [] OTHER -> TRUE
HasRet(e) == e.op \in {"FsMkdir", "FsSize", "FsIter", "FsNext"}
(* what the calls are given and what is observed *)
Call(st, e) ==
  CASE e.op \in {"FsPut", "FsSym", "FsRm", "FsChmod"} -> [op |-> e.op, nodes |-> IF e.chg THEN Tree(e.tree) ELSE st.nodes]
    [] e.op = "FsMkdir" ->
         [op |-> e.op, abs |-> e.abs, p |-> e.p, rl |-> e.rl,
          mode |-> LET w == Place(st, e) T == IF e.chg THEN Tree(e.tree) ELSE st.nodes
                   IN IF w.ok /\ w.p \in DOMAIN T THEN T[w.p].m ELSE 448]
    [] OTHER -> e
(* nothing else changes on disk *)
DiskOk(st, s, e) == IF e.chg THEN Tree(e.tree) = s.nodes ELSE s.nodes = st.nodes
(* a directory made by the library is its owner's to use *)
UsableNew(st, s) == \A p \in DOMAIN s.nodes \ DOMAIN st.nodes : LET m == s.nodes[p].m IN OwnerR(m) /\ OwnerW(m) /\ OwnerX(m)
Memory(st, s, e) ==
  /\ LedgerOk(e)
  /\ (DOMAIN s.iters = {} => e.live = 0 /\ e.fds = 0)
  /\ (DOMAIN s.iters = DOMAIN st.iters => e.live = st.led)
Succ(st, e, x) ==
  CASE e.op = "FsIter" /\ e.ret -> Show(x.s, e.h, e.name)
    [] e.op = "FsNext" -> IF e.ret = (e.name # NULL) THEN Show(x.s, e.h, e.name) ELSE {}
    [] OTHER -> {x.s}
Step(st, e) ==
  UNION {{[s EXCEPT !.led = e.live] : s \in {y \in Succ(st, e, x) :
      /\ DiskOk(st, y, e) /\ Memory(st, y, e)
      /\ (e.op = "FsMkdir" => UsableNew(st, y))}} :
    x \in {y \in Do(st, Call(st, e)) : /\ (HasRet(e) => y.ret = e.ret)
                                       /\ (y.size # NULL /\ e.ret = OK => ZeroPad(e.size, 20) = y.size)
                                       /\ OutOk(st, e)}}
Ops == {"FsNew", "FsPut", "FsSym", "FsRm", "FsChmod", "FsCd", "FsHome", "FsQ", "FsMkdir", "FsSize", "FsIter", "FsNext", "FsEnd",
        "FsJoin", "FsNative", "FsExpand", "FsCwd"}
=============================================================================
