------------------------------- MODULE Common -------------------------------
(* Return codes, allocation-ledger conditions and byte-string helpers shared by the component
   specifications.  Byte strings are sequences of 0..255; a missing (NULL) string is <<-1>>.

   Every component specification has the same shape:
     Init0        the abstract state before the first call,
     Do(st, c)    the set of outcomes [s, ret, ...] that call record c may have in state st,
     Step(st, e)  the successor states for a recorded event e of the implementation: the outcomes
                  of the call which agree with everything that was observed.  Empty when the
                  implementation did something the specification does not allow.
   A call record carries the call's arguments, `refused` (how many allocation requests were turned
   down while it ran: the environment's choice) and, where the specification leaves a choice to the
   implementation, the observed value that resolves it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OK == 0
WARN == 1
ERROR == 2
BADALLOC == 10
INVALID == 11
NOSPACE == 12
NOTINIT == 13
NOTFOUND == 14
SMALREADY == 30
SMINVALID == 31
SMKEYNF == 32
SEVMAPINVALID == 40
SEVSTRINVALID == 41
HMNOMORE == 50

NULL == <<-1>>

(* What every call must respect whatever it does: no foreign or repeated release, and, unless the
   call reports an out-of-memory condition through the logging system, no use of another allocator, and no request
   for gigabytes by a call whose arguments ask for nothing large. *)
LedgerOk(e) == e.bad = 0 /\ (e.refused = 0 => e.raw = 0) /\ e.absurd = 0

(* A failure that the library was told to inject counts as a refusal, but the call may report it
   with another failure code. *)
Injected(c) == "inj" \in DOMAIN c /\ c.inj > 0
(* the same call with a failure injected into it *)
Inject(c) == [x \in DOMAIN c \cup {"inj"} |-> IF x = "inj" THEN 1 ELSE c[x]]
Failing == {BADALLOC, ERROR, INVALID}
Variants(e) ==
  IF Injected(e) /\ "ret" \in DOMAIN e
  THEN {e} \cup (IF \E r \in Failing : ToString(e.ret) = ToString(r) THEN {[e EXCEPT !.ret = r] : r \in Failing} ELSE {})
  ELSE {e}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range(f) == {f[i] : i \in DOMAIN f}
SeqToSet(s) == {s[i] : i \in 1 .. Len(s)}
Tail2(s, i) == SubSeq(s, i, Len(s))
Head2(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Restrict(f, S) == [x \in S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> x]

(* lexicographic order of byte strings: -1, 0 or 1 *)
CmpBytes(a, b) ==
  IF a = b THEN 0
  ELSE LET D == {i \in 1 .. Min2(Len(a), Len(b)) : a[i] # b[i]} IN
       IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
       ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1

Upper == 65 .. 90
ToLower(c) == IF c \in Upper THEN c + 32 ELSE c
LowerStr(s) == [i \in 1 .. Len(s) |-> ToLower(s[i])]

(* decimal digits of a natural number / an integer *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o DigitsOf(-n) ELSE DigitsOf(n)
RECURSIVE ZeroPad(_, _)
ZeroPad(s, n) == IF Len(s) >= n THEN s ELSE ZeroPad(<<48>> \o s, n)
=============================================================================
