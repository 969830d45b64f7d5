------------------------------ MODULE HashMap ------------------------------
(* The hash map (properties C01, C02).  Keys and values are small numbers; a key has a `variant`,
   which the user's comparison function ignores, so that two equal keys need not be identical.
   The way keys hash does not appear here: it must not be observable. *)
EXTENDS Common

(* nxt is what is known about the iteration order since the last modification: the key that follows
   each key; Start is the position before the first key, End the one after the last. *)
Start == -1
End == -2
Init0 == [init |-> FALSE, cap |-> 0, ent |-> Empty, nxt |-> Empty]

RECURSIVE PowerOfTwoFrom(_, _)
PowerOfTwoFrom(p, n) == IF p >= n THEN p ELSE PowerOfTwoFrom(2 * p, n)
RoundUp(n) == PowerOfTwoFrom(1, n)

Keys(st) == DOMAIN st.ent
Count(st) == Cardinality(Keys(st))
Full(n, cap) == n >= (3 * cap) \div 4

(* the keys reachable from k in the known order *)
RECURSIVE Chain(_, _, _)
Chain(nxt, k, n) ==
  IF n = 0 \/ k \notin DOMAIN nxt THEN {k} ELSE {k} \cup Chain(nxt, nxt[k], n - 1)
(* what is known about the order can be completed to a walk over every entry exactly once *)
Consistent(nxt, keys) ==
  /\ DOMAIN nxt \subseteq keys \cup {Start}
  /\ \A k \in DOMAIN nxt : nxt[k] \in keys \cup {End}
  /\ \A j, k \in DOMAIN nxt : nxt[j] = nxt[k] => j = k
  /\ \A k \in DOMAIN nxt : k \notin Chain(nxt, nxt[k], Cardinality(keys) + 2)
  /\ LET c == Chain(nxt, Start, Cardinality(keys) + 2) IN End \in c => keys \subseteq c

(* ---- outcomes ---- *)
Res(s, ret) == [s |-> s, ret |-> ret]
DoInit(st, c) ==
  LET bad == c.nul \/ c.capreq = 0 \/ c.ks = 0 \/ c.ds = 0 IN
  IF bad THEN {Res(Init0, INVALID)}
  ELSE IF c.capreq = -1     \* not representable
  THEN {Res(Init0, INVALID)} \cup (IF c.refused > 0 THEN {Res(Init0, BADALLOC)} ELSE {})
  ELSE {Res([Init0 EXCEPT !.init = TRUE, !.cap = RoundUp(c.capreq)], OK)}
         \cup (IF c.refused > 0 THEN {Res(Init0, BADALLOC)} ELSE {})

DoSet(st, c) ==
  IF ~st.init THEN {Res(st, NOTINIT)} ELSE
  LET var == IF c.k \in Keys(st) THEN st.ent[c.k].var ELSE c.var   \* the first key given is kept
      ent == Put(st.ent, c.k, [var |-> var, v |-> c.v])
      n == Cardinality(DOMAIN ent)
      caps == IF ~Full(n, st.cap) THEN {st.cap}
              ELSE IF c.refused > 0 THEN {st.cap, 2 * st.cap}     \* growing is optional
              ELSE {2 * st.cap}
  IN {Res([st EXCEPT !.ent = ent, !.cap = cap, !.nxt = Empty], OK) : cap \in caps}
       \cup (IF c.refused > 0 THEN {Res([st EXCEPT !.nxt = Empty], BADALLOC)} ELSE {})

DoUnset(st, c) ==
  IF ~st.init THEN {Res(st, NOTINIT)}
  ELSE {Res([st EXCEPT !.ent = Restrict(st.ent, Keys(st) \ {c.k}), !.nxt = Empty], OK)}

(* the value and existence reported for key k *)
Lookup(st, k) == IF st.init /\ k \in Keys(st) THEN st.ent[k].v ELSE -1
GetRet(st, k) == IF ~st.init THEN NOTINIT ELSE IF k \in Keys(st) THEN OK ELSE NOTFOUND

(* entry after key k (Start: none given), whatever key the implementation chose (c.nk) *)
DoNext(st, c) ==
  IF ~st.init THEN {Res(st, NOTINIT)}
  ELSE IF c.k # Start /\ c.k \notin Keys(st) THEN {Res(st, NOTFOUND)}
  ELSE LET known == Consistent(Put(st.nxt, c.k, c.nk), Keys(st))
           done == Consistent(Put(st.nxt, c.k, End), Keys(st))
           fixed == c.k \in DOMAIN st.nxt
       IN (IF c.nk \in Keys(st) /\ known /\ (fixed => st.nxt[c.k] = c.nk)
           THEN {Res([st EXCEPT !.nxt = Put(@, c.k, c.nk)], OK)} ELSE {})
          \cup (IF done /\ (fixed => st.nxt[c.k] = End)
                THEN {Res([st EXCEPT !.nxt = Put(@, c.k, End)], HMNOMORE)} ELSE {})

DoFini(st) == IF ~st.init THEN {Res(st, NOTINIT)} ELSE {Res(Init0, OK)}

Do(st, c) ==
  CASE c.op = "HmInit" -> DoInit(st, c)
    [] c.op = "HmSet" -> DoSet(st, c)
    [] c.op = "HmUnset" -> DoUnset(st, c)
    [] c.op = "HmGet" -> {Res(st, GetRet(st, c.k))}
    [] c.op = "HmNext" -> DoNext(st, c)
    [] c.op = "HmFini" -> DoFini(st)
    [] OTHER -> {}

(* ---- observation: everything the map answers about itself after the call ---- *)
Observed(st, e) ==
  /\ e.size = (IF st.init THEN Count(st) ELSE -NOTINIT)
  /\ e.cap = (IF st.init THEN st.cap ELSE -NOTINIT)
  /\ \A i \in 1 .. Len(e.obs) : e.obs[i] = Lookup(st, e.lo + i - 1)
  /\ (~st.init => e.live = 0)       \* nothing remains of a finalised map, or of a failed start

(* a whole iteration: a permutation of the entries which agrees with what is known of the order *)
IterOk(st, e) ==
  IF ~st.init THEN e.ret = NOTINIT /\ e.seq = <<>>
  ELSE /\ e.ret = HMNOMORE
       /\ Len(e.seq) = Count(st)
       /\ {e.seq[i][1] : i \in 1 .. Len(e.seq)} = Keys(st)
       /\ \A i \in 1 .. Len(e.seq) :
            e.seq[i][2] = st.ent[e.seq[i][1]].var /\ e.seq[i][3] = st.ent[e.seq[i][1]].v
Order(e) ==
  [k \in {e.seq[i][1] : i \in 1 .. Len(e.seq)} \cup {Start} |->
     LET i == IF k = Start THEN 0 ELSE CHOOSE i \in 1 .. Len(e.seq) : e.seq[i][1] = k
     IN IF i = Len(e.seq) THEN End ELSE e.seq[i + 1][1]]
AfterIter(st, e) ==
  IF ~st.init THEN {st}
  ELSE LET o == Order(e) IN
       IF \A k \in DOMAIN st.nxt : o[k] = st.nxt[k] THEN {[st EXCEPT !.nxt = o]} ELSE {}

NullsOk(st, e) ==
  LET s == IF st.init THEN INVALID ELSE NOTINIT
      n == IF st.init THEN INVALID ELSE NOTINIT
  IN e.rets = <<INVALID, INVALID, INVALID, INVALID, INVALID, INVALID, INVALID, 0,
                s, s, s, s, s, n, n, 0, s, s>>

OutOk(st, e) ==   \* results other than the return code
  CASE e.op = "HmInit" -> (e.ret # OK => ~e.left)
    [] e.op = "HmGet" -> e.v = Lookup(st, e.k) /\ e.ex = (Lookup(st, e.k) # -1)
    [] e.op = "HmNext" -> (e.ret = OK => /\ e.nk \in Keys(st)
                                         /\ e.nvar = st.ent[e.nk].var /\ e.nv = st.ent[e.nk].v)
    [] OTHER -> TRUE

Step(st, e) ==
  IF ~LedgerOk(e) THEN {}
  ELSE IF e.op = "HmIter"
  THEN IF IterOk(st, e) THEN {s \in AfterIter(st, e) : Observed(s, e)} ELSE {}
  ELSE IF e.op = "HmNulls"
  THEN IF NullsOk(st, e) /\ Observed(st, e) THEN {st} ELSE {}
  ELSE {r.s : r \in {x \in Do(st, e) : x.ret = e.ret /\ OutOk(st, e) /\ Observed(x.s, e)}}

Ops == {"HmInit", "HmSet", "HmUnset", "HmGet", "HmNext", "HmFini", "HmIter", "HmNulls"}
=============================================================================
