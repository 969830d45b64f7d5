-------------------------------- MODULE Alloc --------------------------------
(* The allocator interface (C25) and what the library says about the process (C26).
   State: three slots, each holding a block (its bytes, the first 300 of them) or nothing, whose it
   is (the default allocator's or the driver's), and how many of the driver's blocks are out. *)
EXTENDS Common

Slots == 0 .. 2
SIZES == 300
Empty0 == [n |-> -1, b |-> NULL, def |-> FALSE]
Init0 == [i \in Slots |-> Empty0]
Huge == 1000000000
(* the content the driver gives to byte k (from 0) of slot i *)
Pattern(i, k) == (k * 7 + i + 1) % 256
Shown(n) == Min2(n, SIZES)
Fresh(i, n) == [k \in 1 .. Shown(n) |-> Pattern(i, k - 1)]
Zeros(n) == [k \in 1 .. Shown(n) |-> 0]
(* a block of n bytes whose first bytes are those of x *)
Resized(i, x, n) == [k \in 1 .. Shown(n) |-> IF k <= Min2(x.n, n) THEN x.b[k] ELSE Pattern(i, k - 1)]
Held(x) == x.n >= 0

Res(s, ret) == [s |-> s, ret |-> ret]
Basename(n) ==
  LET RECURSIVE Strip(_)
      Strip(s) == IF s # <<>> /\ s[Len(s)] = 47 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
      t == Strip(n)
      RECURSIVE From(_)
      From(i) == IF i > 0 /\ t[i] # 47 THEN From(i - 1) ELSE i + 1
  IN IF n = <<>> THEN <<46>> ELSE IF t = <<>> THEN <<47>> ELSE SubSeq(t, From(Len(t)), Len(t))
(* n = -1 stands for a size no memory can have *)
Do(st, c) ==
  LET x == st[c.i]
      Keep == [st EXCEPT ![c.i] = Empty0]
      New(n, b, def) == [st EXCEPT ![c.i] = [n |-> n, b |-> b, def |-> def]]
  IN CASE c.op = "AmNew" ->
            (IF c.n = -1 THEN {} ELSE {Res(New(c.n, Fresh(c.i, c.n), c.def), TRUE)})
            \cup (IF c.n = -1 \/ c.refused > 0 THEN {Res(st, FALSE)} ELSE {})
       [] c.op = "AmZero" ->
            LET huge == (c.a = -1 /\ c.b # 0) \/ (c.b = -1 /\ c.a # 0)
            IN (IF huge THEN {} ELSE {Res(New(c.a * c.b, Zeros(c.a * c.b), c.def), TRUE)})
               \cup (IF huge \/ c.refused > 0 THEN {Res(st, FALSE)} ELSE {})
       [] c.op = "AmFree" -> {Res(Keep, TRUE)}
       [] c.op = "AmRe" ->
            LET def == x.def
                Fail == (IF c.f THEN Keep ELSE st)       \* reallocf releases the block it could not resize
            IN IF c.f /\ c.mask # 15 THEN {Res(st, FALSE)}   \* no usable allocator: nothing happens
               ELSE IF c.n = 0 /\ Held(x) THEN {Res(Keep, FALSE)}
               ELSE (IF c.n = -1 THEN {} ELSE {Res(New(c.n, Resized(c.i, IF Held(x) THEN x ELSE [x EXCEPT !.n = 0], c.n), def), TRUE)})
                    \cup (IF c.n = -1 \/ c.refused > 0 THEN {Res(Fail, FALSE)} ELSE {})
       [] OTHER -> {}
Blocks(st) == [k \in 1 .. 3 |-> st[k - 1].b]
Out(st) == Cardinality({i \in Slots : Held(st[i]) /\ ~st[i].def})
Ledger(st, s, e) == e.bad = 0 /\ e.live = Out(s)
Step(st, e) ==
  CASE e.op = "AmValid" -> IF e.ret = (e.mask = 15) /\ e.blk = Blocks(st) /\ Ledger(st, st, e) THEN {st} ELSE {}
    [] e.op = "AmKnown" -> IF e.zero /\ e.def /\ e.blk = Blocks(st) THEN {st} ELSE {}
    [] e.op = "PrExe" -> IF /\ e.same /\ LedgerOk(e) /\ e.live = Out(st)
                            /\ (IF ~e.valid THEN e.out = NULL ELSE e.out = Basename(e.n) \/ (e.refused > 0 /\ e.out = NULL)) THEN {st} ELSE {}
    [] e.op = "PrPid" -> IF e.ok THEN {st} ELSE {}
    [] OTHER -> {x.s : x \in {y \in Do(st, e) : y.ret = e.ret /\ e.blk = Blocks(y.s) /\ Ledger(st, y.s, e)}}
Ops == {"AmValid", "AmKnown", "AmNew", "AmZero", "AmFree", "AmRe", "PrExe", "PrPid"}
=============================================================================
