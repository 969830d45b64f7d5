----------------------------- MODULE LogThreads -----------------------------
(* Several threads logging at the same time while nobody reconfigures logging (property C24).

   What each call must produce is what Logging says it produces alone.  Its line may reach the
   output at any moment between the call and its return (later, if the stream is buffered by the
   user's choice), in one piece: the output is a sequence of whole lines, each the next line of
   some thread.  A state records the configuration, for each thread the call it is in and its
   lines still to come out, and the part of a line that has come out at the last observation. *)
EXTENDS Common
Lg == INSTANCE Logging
Threads == 0 .. 3
None == [k |-> FALSE]
Init0 == [lg |-> Lg!Init0, in |-> [t \in Threads |-> None], q |-> [t \in Threads |-> <<>>], part |-> <<>>]

EnvOf(e) == <<IF "env1" \in DOMAIN e THEN e.env1 ELSE NULL, IF "env2" \in DOMAIN e THEN e.env2 ELSE NULL,
              IF "env3" \in DOMAIN e THEN e.env3 ELSE NULL, IF "env4" \in DOMAIN e THEN e.env4 ELSE NULL, NULL>>
(* Setup: logging has been initialised with this environment, handler and levels; the streams were
   line buffered (standard output) and unbuffered (standard error) before *)
Configured(e) ==
  LET env == EnvOf(e)
      st == [Lg!Init0 EXCEPT !.env = env, !.up = TRUE, !.cfg = Lg!Config(env), !.def = e.def, !.hd = e.hd,
               !.mode = <<1, 0>>,
               !.lv = [n \in {e.lv[i][1] : i \in 1 .. Len(e.lv)} |-> (CHOOSE p \in Range(e.lv) : p[1] = n)[2]]]
  IN [st EXCEPT !.mode = Lg!ModeSet(st)]
Prompt(lg) == lg.mode[lg.cfg.stream] = 0

Effect(lg, e) ==
  IF Lg!Enabled(lg, e.n, e.sev) THEN Lg!Deliver([lg EXCEPT !.clk = [fail |-> FALSE, d |-> e.ts]], Lg!Msg(e)) ELSE Lg!Nothing

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* [q, part] after the bytes have come out *)
RECURSIVE Consume(_, _)
Consume(q, bytes) ==
  IF bytes = <<>> THEN {[q |-> q, part |-> <<>>]}
  ELSE UNION {LET l == Head(q[t]) IN
         IF IsPrefixOf(l, bytes) THEN Consume([q EXCEPT ![t] = Tail(@)], SubSeq(bytes, Len(l) + 1, Len(bytes)))
         ELSE IF IsPrefixOf(bytes, l) THEN {[q |-> q, part |-> bytes]} ELSE {}
       : t \in {u \in Threads : q[u] # <<>>}}
Output(st, bytes) == {[st EXCEPT !.q = x.q, !.part = x.part] : x \in Consume(st.q, st.part \o bytes)}

Step(st, e) ==
  CASE e.op = "Setup" -> {[Init0 EXCEPT !.lg = Configured(e)]}
    [] e.op = "Call" ->
         LET f == Effect(st.lg, e) IN
         IF st.in[e.t].k \/ f.noise \/ f.wild THEN {}
         ELSE {[st EXCEPT !.in[e.t] = [k |-> TRUE, dl |-> f.dl],
                          !.q[e.t] = IF f.text = <<>> THEN @ ELSE Append(@, f.text)]}
    [] e.op = "Ret" ->
         IF ~st.in[e.t].k \/ e.dl # st.in[e.t].dl \/ e.es THEN {}
         ELSE {[s EXCEPT !.in[e.t] = None] : s \in {x \in Output(st, e.out) : Prompt(x.lg) => x.q[e.t] = <<>>}}
    [] e.op = "End" -> {s \in Output(st, e.out) : \A t \in Threads : s.q[t] = <<>> /\ ~s.in[t].k}
    [] e.op = "Ran" -> {st}
    [] OTHER -> {}
Ops == {"Setup", "Call", "Ret", "End", "Ran"}
=============================================================================
