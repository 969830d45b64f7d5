------------------------------- MODULE ShaMC -------------------------------
(* The digest machine on small messages: a machine which keeps only a chaining value, the pending
   bytes and the length gives the digest of the whole message however it is cut. *)
EXTENDS Sha, Json
CONSTANTS C, SIZES, MAX, RUNS, EMIT
VARIABLES st, inc
vars == <<st, inc>>
Start == [h |-> H0, buf |-> <<>>, n |-> 0]
RECURSIVE Eat(_, _)
Eat(x, d) ==
  LET k == Min2(64 - Len(x.buf), Len(d))
      b == x.buf \o SubSeq(d, 1, k)
      y == IF Len(b) = 64 THEN [h |-> Compress(x.h, b), buf |-> <<>>, n |-> x.n + k] ELSE [x EXCEPT !.buf = b, !.n = @ + k]
  IN IF k = Len(d) THEN y ELSE Eat(y, SubSeq(d, k + 1, Len(d)))
Finish(x) == LET p == x.buf \o <<128>> \o Zeros((119 - (x.n % 64)) % 64) \o LenBytes(x.n) IN Bytes(Blocks(x.h, p))
Piece(n, t) == [i \in 1 .. n |-> (i * 7 + t) % 256]
Calls == {[op |-> "ShInit", i |-> i] : i \in C}
           \cup {[op |-> "ShUpdate", i |-> i, d |-> Piece(n, 3 * i)] : i \in C, n \in SIZES}
           \cup {[op |-> "ShFinal", i |-> i] : i \in C}
Tot(x) == Len(Expand(x.run))
Init == st = Init0 /\ inc = [i \in C |-> Start]
Next == \E c \in Calls :
  /\ (c.op # "ShInit" => st[c.i].live)
  /\ (c.op = "ShUpdate" => Tot(st[c.i]) + Len(c.d) <= MAX /\ Len(st[c.i].run) < RUNS)
  /\ \E s \in Do(st, c) : st' = s
  /\ inc' = [inc EXCEPT ![c.i] = CASE c.op = "ShInit" -> Start [] c.op = "ShUpdate" -> Eat(@, c.d) [] OTHER -> Start]
  /\ (EMIT => PrintT(ToJson(<<ToString(st), c, ToString(st')>>)))
Spec == Init /\ [][Next]_vars
CuttingDoesNotMatter == EMIT \/ \A i \in C : st[i].live => Finish(inc[i]) = DigestOf(st[i].run)
(* the published examples *)
ASSUME Sha256(<<97, 98, 99>>) = <<186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173>>
ASSUME Sha256(<<>>) = <<227,176,196,66,152,252,28,20,154,251,244,200,153,111,185,36,39,174,65,228,100,155,147,76,164,149,153,27,120,82,184,85>>
=============================================================================
