----------------------------- MODULE LoggingMC -----------------------------
EXTENDS Logging, Json
CONSTANTS FOCUS, NAMES, DEPTH, EMIT
VARIABLES st, g, n
vars == <<st, g, n>>
A == <<97>>
All == <<<<97>>, <<97, 46, 98>>, <<97, 46, 98, 46, 99>>, <<97, 98>>, <<97, 46>>, <<46>>, <<46, 97>>, <<98>>>>
NS == {All[i] : i \in NAMES}
Universe == {All[i] : i \in 1 .. Len(All)} \cup {<<>>, <<97, 46, 98, 46>>, <<97, 46, 46, 98>>, <<97, 46, 98, 46, 99, 46, 100>>}
Pct == <<37, 115>>
Call(op) == [op |-> op, refused |-> 0]
M(c, sev, name) == c @@ [sev |-> sev, n |-> name, fmt |-> Pct, s |-> <<104>>, num |-> 1, loc |-> FALSE, func |-> NULL, file |-> NULL, line |-> <<>>]
Macros == {M(Call("LgMacro"), 20, A) @@ [lib |-> 0, cond |-> k, named |-> nm, copy |-> 0, ms |-> 100, xv |-> v, fv |-> v, tfail |-> tf, tns |-> t] :
  k \in {1, 4, 5, 6}, nm \in {1}, v \in {TRUE}, tf \in {FALSE}, t \in {MsNs(60), MsNs(110), MsNs(170), MsNs(200)}}
Calls ==
  CASE FOCUS = "levels" ->
         {Call("LgSet") @@ [n |-> a, lv |-> l] : a \in NS \cup {<<>>}, l \in {0, 10, 40}}
           \cup {Call("LgSetDef") @@ [lv |-> l] : l \in {0, 30}} \cup {Call("LgShutdown")} \cup {Call("LgEff") @@ [n |-> a] : a \in NS}
    [] FOCUS = "start" ->
         {Call("LgEnv") @@ [var |-> 1, v |-> x] : x \in {NULL, O1, <<120>>}}
           \cup {Call("LgEnv") @@ [var |-> 2, v |-> x] : x \in {NULL, O1}}
           \cup {Call("LgEnv") @@ [var |-> 3, v |-> x] : x \in {Z0, O1, <<120>>}}
           \cup {Call("LgInit") @@ [k |-> 0], Call("LgShutdown"), Call("LgSetH") @@ [h |-> 2], Call("LgSet") @@ [n |-> A, lv |-> 10],
                 M(Call("LgLog") @@ [k |-> 0], 10, A)}
    [] OTHER ->
         Macros \cup {Call("LgSet") @@ [n |-> A, lv |-> l] : l \in {10, 40}} \cup {Call("LgSetH") @@ [h |-> h] : h \in {0, 2}}
(* ghost: per macro condition, how often the site was enabled, how often it delivered, and when last *)
Ghost0 == [k \in {1, 4, 5, 6} |-> [en |-> 0, dl |-> 0, at |-> <<>>, gap |-> TRUE]]
Ghost(c, r) ==
  IF c.op # "LgMacro" \/ FOCUS # "macros" \/ EMIT THEN g
  ELSE LET x == g[c.cond]
           on == Enabled(r.s, c.n, c.sev)
           hit == Fires(st, c).fire /\ on
       IN [g EXCEPT ![c.cond] = [en |-> Min2(3, x.en + IF on THEN 1 ELSE 0), dl |-> Min2(3, x.dl + IF hit THEN 1 ELSE 0),
             at |-> IF hit THEN c.tns ELSE x.at,
             gap |-> x.gap /\ (hit /\ x.at # <<>> /\ c.cond \in {5, 6} => CmpBytes(c.tns, Plus(x.at, MsNs(100))) >= 0)]]
Key(s) == ToString(<<s.up, s.env, s.cfg.stream, s.cfg.col, s.def, s.lv, s.hd, s.mode, s.sites>>)
Init == st = [Init0 EXCEPT !.up = (FOCUS # "start"), !.mine = TRUE, !.hd = IF FOCUS = "macros" THEN 2 ELSE 1] /\ g = Ghost0 /\ n = 0
Next == n < DEPTH /\ \E c \in Calls : \E r \in Do(st, c) :
          /\ st' = [r.s EXCEPT !.led = 0] /\ g' = Ghost(c, r)
          /\ n' = IF DEPTH = 99 THEN 0 ELSE n + 1
          /\ (EMIT => PrintT(ToJson(<<Key(st), c, Key(st')>>)))
Spec == Init /\ [][Next]_vars

(* ---- levels ---- *)
(* the closest logger with a level among the logger itself and its ancestors, looked at from outside *)
AncestorOrSelf(p, m) == p = m \/ (Len(p) < Len(m) /\ SubSeq(m, 1, Len(p)) = p /\ m[Len(p) + 1] = 46)
SetOnes(s, m) == {p \in DOMAIN s.lv : s.lv[p] # 0 /\ AncestorOrSelf(p, m)}
HierarchyRight == \A m \in Universe :
  Effective(st, m) = (IF SetOnes(st, m) = {} THEN st.def
                      ELSE st.lv[CHOOSE p \in SetOnes(st, m) : \A q \in SetOnes(st, m) : Len(q) <= Len(p)])
The(c) == CHOOSE r \in Do(st, c) : TRUE
(* setting a logger concerns its subtree only, and none of those which have a level of their own or closer *)
Frame == FOCUS = "levels" /\ st.up => \A c \in {x \in Calls : x.op = "LgSet" /\ x.n # <<>>} : LET t == The(c).s IN
  \A m \in Universe :
    (~AncestorOrSelf(c.n, m) \/ \E p \in SetOnes(st, m) : Len(p) > Len(c.n)) => Effective(t, m) = Effective(st, m)
EnabledUpwards == \A m \in Universe : \A s1 \in {10, 20, 30, 40} : Enabled(st, m, s1) => Enabled(st, m, s1 + 10)
(* ---- start-up ---- *)
Fresh == FOCUS = "start" =>
  \A r \in Do([The(Call("LgShutdown")).s EXCEPT !.mine = TRUE], Call("LgInit") @@ [k |-> 0]) :
    \E q \in Do([Init0 EXCEPT !.env = st.env, !.mode = st.mode, !.mine = TRUE], Call("LgInit") @@ [k |-> 0]) :
      r.ret = q.ret /\ (r.ret = OK => r.s = q.s) /\ (r.ret # OK => ~r.s.up)
Idempotent == st.up => \A k \in {0, 1, 2} : Do(st, Call("LgInit") @@ [k |-> k]) = {Res(st, OK)}
(* a call into which a failure is injected leaves a logging system that works as it was, one that has been
   started, or none *)
InjectedContained == FOCUS = "start" => \A c \in Calls : \A r \in Do(st, Inject(c)) :
  \/ r \in Do(st, c)
  \/ st.up /\ r.s = st
  \/ ~st.up /\ r.s.def \in {INFO, st.def} /\ DOMAIN r.s.lv \subseteq DOMAIN st.lv \cup {A} /\ (~r.s.up => [r.s EXCEPT !.mode = st.mode] = st)
ConfigSane == st.up /\ FOCUS = "start" => st.cfg.stream \in {1, 2} /\ st.cfg.col \in 0 .. 2 /\ st.cfg.pieces # <<>>
(* ---- macros ---- *)
OnceOnce == g[1].dl = Min2(1, g[1].en)
SkipsFirst == g[4].dl = Max2(0, g[4].en - 1) \/ g[4].en = 3
Spaced == g[5].gap /\ g[6].gap
=============================================================================
