----------------------------- MODULE StringMap -----------------------------
(* The string map (property C03): two maps, so that copying between them can be described.
   A map is a function from key strings to value strings with an explicit capacity. *)
EXTENDS Common

Slots == {0, 1}
NoMap == [init |-> FALSE, cap |-> 0, ent |-> Empty]
Init0 == [s \in Slots |-> NoMap]
Size(m) == Cardinality(DOMAIN m.ent)

Res(m, ret) == [s |-> m, ret |-> ret]
NoMemory(m, c) == IF c.refused > 0 THEN {Res(m, BADALLOC)} ELSE {}

(* the capacity a map may have after a set that had to grow it; c.cap is what was observed *)
Grown(m, c) == IF c.cap > m.cap THEN {c.cap} ELSE {}

DoInit(m, c) ==
  IF m.init THEN {Res(m, SMALREADY)}
  ELSE IF c.capreq = -1 THEN {Res(m, BADALLOC)}
  ELSE {Res([NoMap EXCEPT !.init = TRUE, !.cap = c.capreq], OK)} \cup NoMemory(m, c)
DoFini(m, c) == {Res(NoMap, OK)}
DoReserve(m, c) ==
  IF ~m.init THEN {Res(m, SMINVALID)}
  ELSE IF c.capreq = -1 THEN {Res(m, BADALLOC)}
  ELSE {Res([m EXCEPT !.cap = Max2(c.capreq, Size(m))], OK)} \cup NoMemory(m, c)
DoClear(m, c) == IF ~m.init THEN {Res(m, SMINVALID)} ELSE {Res([m EXCEPT !.ent = Empty], OK)}

DoSet(m, c) ==
  IF ~m.init THEN {Res(m, SMINVALID)}
  ELSE IF c.key = NULL \/ c.val = NULL THEN {Res(m, INVALID)}
  ELSE LET new == [m EXCEPT !.ent = Put(m.ent, c.key, c.val)] IN
       IF c.key \in DOMAIN m.ent \/ Size(m) < m.cap
       THEN {Res(new, OK)} \cup NoMemory(m, c)
       ELSE {Res([new EXCEPT !.cap = g], OK) : g \in Grown(m, c)}
            \cup NoMemory(m, c)
            \cup (IF c.refused > 0 THEN {Res([m EXCEPT !.cap = g], BADALLOC) : g \in Grown(m, c)} ELSE {})
DoSetNR(m, c) ==
  IF ~m.init THEN {Res(m, SMINVALID)}
  ELSE IF c.key = NULL \/ c.val = NULL THEN {Res(m, INVALID)}
  ELSE IF c.key \in DOMAIN m.ent \/ Size(m) < m.cap
  THEN {Res([m EXCEPT !.ent = Put(m.ent, c.key, c.val)], OK)} \cup NoMemory(m, c)
  ELSE {Res(m, NOSPACE)}
DoUnset(m, c) ==
  IF ~m.init THEN {Res(m, SMINVALID)}
  ELSE IF c.key = NULL THEN {Res(m, INVALID)}
  ELSE IF c.key \notin DOMAIN m.ent THEN {Res(m, SMKEYNF)}
  ELSE {Res([m EXCEPT !.ent = Del(m.ent, c.key)], OK)}

(* every entry of src overwrites or joins dst *)
Merge(dst, src) ==
  [k \in DOMAIN dst \cup DOMAIN src |-> IF k \in DOMAIN src THEN src[k] ELSE dst[k]]
DoCopy(src, m, c) ==
  IF ~src.init \/ ~m.init THEN {Res(m, SMINVALID)}
  ELSE LET full == Merge(m.ent, src.ent)
           caps == IF Cardinality(DOMAIN full) <= m.cap THEN {m.cap}
                   ELSE IF c.cap >= Cardinality(DOMAIN full) THEN {c.cap} ELSE {}
       IN {Res([m EXCEPT !.ent = full, !.cap = g], OK) : g \in caps}
          \* out of memory part-way: some of the entries have been copied, c.done says which
          \cup (IF c.refused > 0
                THEN LET part == Merge(m.ent, Restrict(src.ent, c.done \cap DOMAIN src.ent)) IN
                     IF c.cap >= m.cap /\ c.cap >= Cardinality(DOMAIN part)
                     THEN {Res([m EXCEPT !.ent = part, !.cap = c.cap], BADALLOC)} ELSE {}
                ELSE {})

(* many sets or removals in a row, of keys that follow a pattern *)
BulkNumbers(c) == {c.from + i * c.step : i \in 0 .. c.n - 1}
BulkKey(i) == <<107>> \o Dec(i)
BulkEntries(c) == LET K == [i \in BulkNumbers(c) |-> BulkKey(i)]
                      N == [k \in Range(K) |-> CHOOSE i \in BulkNumbers(c) : K[i] = k]
                  IN [k \in Range(K) |-> <<118>> \o Dec(7 * N[k])]
DoBulk(m, c) ==
  IF ~m.init THEN {Res(m, SMINVALID)}
  ELSE LET full == Merge(m.ent, BulkEntries(c)) IN
       {Res([m EXCEPT !.ent = full, !.cap = g], OK) :
          g \in IF Cardinality(DOMAIN full) <= m.cap THEN {m.cap}
                ELSE IF c.cap >= Cardinality(DOMAIN full) THEN {c.cap} ELSE {}}
(* described only where every one of the keys is present *)
DoBulkDel(m, c) ==
  IF ~m.init THEN {Res(m, SMINVALID)}
  ELSE LET K == {BulkKey(i) : i \in BulkNumbers(c)} IN
       IF K \subseteq DOMAIN m.ent THEN {Res([m EXCEPT !.ent = Restrict(m.ent, DOMAIN m.ent \ K)], OK)} ELSE {}

Lookup(m, k) == IF m.init /\ k \in DOMAIN m.ent THEN m.ent[k] ELSE NULL

DoM(st, m, c) ==
  CASE c.op = "SmInit" -> DoInit(m, c)
    [] c.op = "SmFini" -> DoFini(m, c)
    [] c.op = "SmReserve" -> DoReserve(m, c)
    [] c.op = "SmClear" -> DoClear(m, c)
    [] c.op = "SmSet" -> DoSet(m, c)
    [] c.op = "SmSetNR" -> DoSetNR(m, c)
    [] c.op = "SmUnset" -> DoUnset(m, c)
    [] c.op = "SmCopy" -> DoCopy(st[c.src], m, c)
    [] c.op = "SmBulk" -> DoBulk(m, c)
    [] c.op = "SmBulkDel" -> DoBulkDel(m, c)
    [] c.op \in {"SmGet", "SmGetN", "SmLook", "SmNextForeign", "SmNulls"} -> {Res(m, OK)}
    [] OTHER -> {}
Do(st, c) == {Res([st EXCEPT ![c.slot] = x.s], x.ret) : x \in DoM(st, st[c.slot], c)}

(* ---- observation ---- *)
ObsKeys(e) == {e.ent[i][1] : i \in 1 .. Len(e.ent)}
Observed(m, e) ==
  IF ~m.init THEN e.size = -SMINVALID /\ e.cap = -SMINVALID /\ e.ent = <<>>
  ELSE /\ e.size = Size(m) /\ e.cap = m.cap /\ m.cap >= Size(m)
       /\ Len(e.ent) = Size(m)                       \* iteration: each key once
       /\ ObsKeys(e) = DOMAIN m.ent
       /\ \A i \in 1 .. Len(e.ent) : e.ent[i][2] = m.ent[e.ent[i][1]]

NullsOk(m, e) ==
  LET s == IF m.init THEN INVALID ELSE SMINVALID IN
  /\ e.rets = [i \in 1 .. 15 |-> IF i <= 12 THEN INVALID ELSE 0]
  /\ e.srets = <<s, s, s, s, s, s, 0>>

OutOk(m, e) ==
  CASE e.op = "SmGet" -> e.out = Lookup(m, e.key) /\ e.ex = (Lookup(m, e.key) # NULL)
    [] e.op = "SmGetN" ->
         LET k == IF e.key = NULL THEN NULL ELSE Head2(e.key, e.len) IN
         e.out = Lookup(m, k) /\ e.ex = (Lookup(m, k) # NULL)
    [] e.op = "SmNextForeign" -> e.out = NULL      \* not one of the map's own keys
    [] e.op = "SmNulls" -> NullsOk(m, e)
    [] e.op = "SmFini" -> e.isnull
    [] OTHER -> TRUE
HasRet(e) == e.op \notin {"SmGet", "SmGetN", "SmLook", "SmNextForeign", "SmNulls"}

(* for a copy that ran out of memory: the keys of the source that reached the destination *)
Reached(st, e) ==
  IF e.op = "SmCopy"
  THEN {k \in DOMAIN st[e.src].ent : \E i \in 1 .. Len(e.ent) : e.ent[i] = <<k, st[e.src].ent[k]>>}
  ELSE {}
Call(st, e) == IF e.op = "SmCopy" THEN [e EXCEPT !.op = "SmCopy"] @@ [done |-> Reached(st, e)] ELSE e

Step(st, e) ==
  IF ~LedgerOk(e) \/ e.slot \notin Slots THEN {}
  ELSE {x.s : x \in {y \in Do(st, Call(st, e)) :
           /\ (HasRet(e) => y.ret = e.ret)
           /\ Observed(y.s[e.slot], e)
           /\ OutOk(st[e.slot], e)
           /\ ((\A s \in Slots : ~y.s[s].init) => e.live = 0)}}
Ops == {"SmInit", "SmFini", "SmReserve", "SmClear", "SmSet", "SmSetNR", "SmUnset", "SmCopy", "SmBulk", "SmBulkDel",
        "SmGet", "SmGetN", "SmLook", "SmNextForeign", "SmNulls"}
=============================================================================
