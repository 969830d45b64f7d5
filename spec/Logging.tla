------------------------------ MODULE Logging ------------------------------
(* The logging system: start-up and shutdown with its configuration from the environment (C14),
   logger levels and their hierarchy (C11), delivery of log calls and the conditions of the logging
   macros (C12), and what the console handler writes (C13).

   State
     up      logging is initialised, and `mine`: with the driver's allocator
     env     the five environment variables, NULL when unset
     cfg     the configuration in force: stream 1 stdout / 2 stderr, col 0 off / 1 on / 2 when a
             terminal, pieces of the decoded format, wild when the format is outside the specified range
     def     the default level;  lv the levels given to loggers
     hd      the output handler: 0 none, 1 console, 2 and 3 handlers of the program
     clk     the wall clock: whether reading it fails, and its 19 digits
     sites   what each macro call site remembers
     mode    buffering of stdout and stderr: 0 none, 1 line, 2 full
     tty     both streams are terminals;  names the loggers observed after each call
     led     live blocks of the driver's allocator after the last event *)
EXTENDS LogFormat

INFO == 20
Z(n) == [i \in 1 .. n |-> 48]
NoEnv == [i \in 1 .. 5 |-> NULL]
Text(v) == IF v = NULL THEN <<>> ELSE v
LvlInit == [up |-> FALSE, mine |-> FALSE, env |-> NoEnv, cfg |-> [stream |-> 2, col |-> 2, pieces |-> <<>>, wild |-> FALSE],
   def |-> INFO, lv |-> Empty, hd |-> 1, clk |-> [fail |-> FALSE, d |-> [i \in 1 .. 19 |-> IF i = 10 THEN 49 ELSE 48]],
   sites |-> Empty, mode |-> <<2, 0>>, tty |-> FALSE, names |-> <<>>, led |-> 0]
Init0 == LvlInit

(* ---- configuration ---- *)
Z0 == <<48>>
O1 == <<49>>
Valid01(v) == Text(v) \in {<<>>, Z0, O1}
StreamOf(env) == IF Text(env[1]) = O1 THEN 1 ELSE 2
ModeSet(st) ==   \* buffering after the buffering variable has been applied
  LET b == Text(st.env[2]) IN
  IF b = <<>> THEN st.mode ELSE [st.mode EXCEPT ![StreamOf(st.env)] = IF b = Z0 THEN 0 ELSE 1]
Config(env) ==
  LET f == IF Text(env[4]) = <<>> THEN DefaultFormat ELSE env[4]
      p == Pieces(Decode(f), 1)
  IN [stream |-> StreamOf(env),
      col |-> CASE Text(env[3]) = <<>> -> 2 [] Text(env[3]) = Z0 -> 0 [] OTHER -> 1,
      pieces |-> p, wild |-> CutEscape(f) \/ Len(p) > PieceLimit]
(* outcomes of starting up when not initialised: [s, ret] *)
Boot(st, mine, refused) ==
  IF ~Valid01(st.env[1]) \/ ~Valid01(st.env[2]) THEN {[s |-> st, ret |-> INVALID]}
  ELSE IF ~Valid01(st.env[3]) THEN {[s |-> st, ret |-> INVALID], [s |-> [st EXCEPT !.mode = ModeSet(st)], ret |-> INVALID]}
  ELSE {[s |-> [st EXCEPT !.up = TRUE, !.mine = mine, !.cfg = Config(st.env), !.def = INFO, !.lv = Empty, !.hd = 1,
                          !.mode = ModeSet(st)], ret |-> OK]}
       \cup (IF refused > 0 THEN {[s |-> [st EXCEPT !.mode = ModeSet(st)], ret |-> ERROR]} ELSE {})
       \cup (IF refused = 2     \* an injected failure may come first; the default format replaces one that cannot be read
             THEN {[s |-> st, ret |-> ERROR],
                   [s |-> [st EXCEPT !.up = TRUE, !.mine = mine, !.cfg = Config([st.env EXCEPT ![4] = NULL]), !.def = INFO,
                                     !.lv = Empty, !.hd = 1, !.mode = ModeSet(st)], ret |-> OK]}
             ELSE {})
Denied(c) == IF Injected(c) THEN 2 ELSE IF c.refused > 0 THEN 1 ELSE 0
(* the states in which a call that needs logging does its work *)
Auto(st, c) == IF st.up THEN {st} ELSE {x.s : x \in Boot(st, FALSE, IF Injected(c) THEN 2 ELSE 0)}
(* notices on standard error: an ignored variable *)
BootNoise(st) == ~st.up /\ (Text(st.env[5]) # <<>> \/ \E i \in 1 .. 3 : ~Valid01(st.env[i]))

(* ---- levels ---- *)
Settable == {0, 10, 20, 30, 40, 50}
Own(st, n) == IF n = <<>> THEN st.def ELSE IF n \in DOMAIN st.lv THEN st.lv[n] ELSE 0
(* the names of a logger's ancestors, closest first *)
DotsOf(n) == {i \in 1 .. Len(n) : n[i] = 46}
MaxOf(S) == CHOOSE i \in S : \A j \in S : i >= j
RECURSIVE Resolve(_, _)
Resolve(st, n) ==
  IF n \in DOMAIN st.lv /\ st.lv[n] # 0 THEN st.lv[n]
  ELSE IF DotsOf(n) = {} THEN st.def ELSE Resolve(st, SubSeq(n, 1, MaxOf(DotsOf(n)) - 1))
Effective(st, n) == Resolve(st, n)
Enabled(st, n, sev) == sev >= (IF n = NULL THEN st.def ELSE Effective(st, n))

(* ---- delivery ---- *)
(* a message: [sev, name, fmt, s, num, loc, func, file, line] *)
Delivery(h, m, ts) ==
  <<h, m.sev, Text(m.name), m.fmt, Render(m.fmt, m.s, m.num), IF m.loc THEN 1 ELSE 0,
    IF m.loc THEN m.func ELSE NULL, IF m.loc THEN m.file ELSE NULL, IF m.loc THEN m.line ELSE NULL, ts>>
Coloured(st) == st.cfg.col = 1 \/ (st.cfg.col = 2 /\ st.tty)
LineOf(st, m, ts) ==
  Line(st.cfg.pieces, [sev |-> m.sev, name |-> m.name, msg |-> Render(m.fmt, m.s, m.num), ts |-> ts, loc |-> m.loc,
                       func |-> m.func, file |-> m.file, line |-> m.line], Coloured(st))
(* what delivering a message does: deliveries to handlers of the program, text on the configured
   stream, and whether something else may appear on standard error *)
Nothing == [dl |-> <<>>, text |-> <<>>, noise |-> FALSE, wild |-> FALSE]
Noise == [Nothing EXCEPT !.noise = TRUE]
Console(st, m, ts) ==
  IF ~st.up \/ m.sev \notin Severities THEN Noise
  ELSE [Nothing EXCEPT !.text = LineOf(st, m, ts), !.wild = st.cfg.wild]
(* handler 4 logs itself, through the logger `re`: "%s%d" with "again" and 7 *)
RE == <<114, 101>>
Again(sev) == [sev |-> sev, name |-> RE, fmt |-> <<37, 115, 37, 100>>, s |-> <<97, 103, 97, 105, 110>>, num |-> 7,
               loc |-> FALSE, func |-> NULL, file |-> NULL, line |-> NULL]
Deliver(st, m) ==
  IF st.clk.fail THEN Noise
  ELSE CASE st.hd = 0 -> Nothing
         [] st.hd = 1 -> Console(st, [m EXCEPT !.name = Text(m.name)], st.clk.d)
         [] st.hd = 4 -> [Nothing EXCEPT !.dl = <<Delivery(4, m, st.clk.d)>> \o
                            (IF m.name # RE /\ Enabled(st, RE, m.sev) THEN <<Delivery(4, Again(m.sev), st.clk.d)>> ELSE <<>>)]
         [] OTHER -> [Nothing EXCEPT !.dl = <<Delivery(st.hd, m, st.clk.d)>>]
Both(a, b) == [dl |-> a.dl \o b.dl, text |-> a.text \o b.text, noise |-> a.noise \/ b.noise, wild |-> a.wild \/ b.wild]
Msg(c) == [sev |-> c.sev, name |-> c.n, fmt |-> c.fmt, s |-> c.s, num |-> c.num, loc |-> c.loc, func |-> c.func,
           file |-> c.file, line |-> c.line]

(* ---- macro call sites ---- *)
NewSite == [once |-> FALSE, first |-> TRUE, last |-> Z(19)]
Site(st, k) == IF k \in DOMAIN st.sites THEN st.sites[k] ELSE NewSite
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, carry, acc) ==   \* digit-wise sum of equally long numbers, least significant last
  IF i = 0 THEN acc
  ELSE LET x == (a[i] - 48) + (b[i] - 48) + carry IN AddFrom(a, b, i - 1, x \div 10, <<48 + (x % 10)>> \o acc)
Plus(a, b) == AddFrom(a, b, Len(a), 0, <<>>)
MsNs(ms) == ZeroPad(Dec(ms), 13) \o Z(6)
ClockError(st, c) ==   \* the throttle's clock failed: reported through the unnamed logger
  IF ~Enabled(st, NULL, 40) \/ st.hd = 0 THEN Nothing ELSE [Noise EXCEPT !.wild = TRUE]
(* the outcome of executing a macro whose logger is enabled: [site, fire, nx, nf, nt, pre] *)
Fires(st, c) ==
  LET k == <<c.lib, c.sev, c.cond, c.named, c.copy>>
      x == Site(st, k)
      go == IF c.tfail THEN TRUE ELSE CmpBytes(c.tns, Plus(x.last, MsNs(c.ms))) >= 0
      now == IF c.tfail THEN Z(19) ELSE c.tns
      N(site, fire) == [site |-> site, fire |-> fire, nx |-> 0, nf |-> 0, nt |-> 0]
  IN CASE c.cond = 0 -> N(x, TRUE)
       [] c.cond = 1 -> N([x EXCEPT !.once = TRUE], ~x.once)
       [] c.cond = 2 -> [N(x, c.xv) EXCEPT !.nx = 1]
       [] c.cond = 3 -> [N(x, c.fv) EXCEPT !.nf = 1]
       [] c.cond = 4 -> N([x EXCEPT !.first = FALSE], ~x.first)
       [] c.cond = 5 -> [N(IF go THEN [x EXCEPT !.last = now] ELSE x, go) EXCEPT !.nt = 1]
       [] c.cond = 6 -> [N(IF go THEN [x EXCEPT !.last = now, !.first = FALSE] ELSE x, go /\ ~x.first) EXCEPT !.nt = 1]
Idle == [nx |-> 0, nf |-> 0, nt |-> 0]
MinSev(lib) == IF lib = 6 THEN 10 ELSE lib * 10 + 10   \* 0: everything ... 5: nothing; 6: everything, as C++
Lax == [Noise EXCEPT !.wild = TRUE]
(* logging could not be started: whether the condition is still looked at is not specified *)
Unstarted(a, c) ==
  LET f == Fires(a, c)
      b == [a EXCEPT !.sites = Put(a.sites, <<c.lib, c.sev, c.cond, c.named, c.copy>>, f.site)]
  IN {[s |-> a, ret |-> 0, eff |-> Lax, ev |-> Idle], [s |-> b, ret |-> 0, eff |-> Lax, ev |-> [nx |-> f.nx, nf |-> f.nf, nt |-> f.nt]]}
Macro(a, c) ==   \* in a state in which logging has been started (or could not be)
  LET name == IF c.named = 1 THEN c.n ELSE NULL
      m == [Msg(c) EXCEPT !.name = name]
      R(s, eff, ev) == [s |-> s, ret |-> 0, eff |-> eff, ev |-> ev]
  IN IF c.sev < MinSev(c.lib) THEN R(a, Nothing, Idle)
     ELSE IF ~Enabled(a, name, c.sev) THEN R(a, Nothing, Idle)
     ELSE LET f == Fires(a, c)
              b == [a EXCEPT !.sites = Put(a.sites, <<c.lib, c.sev, c.cond, c.named, c.copy>>, f.site)]
              pre == IF c.cond \in {5, 6} /\ c.tfail THEN ClockError(a, c) ELSE Nothing
          IN R(b, Both(pre, IF f.fire THEN Deliver(b, m) ELSE Nothing), [nx |-> f.nx, nf |-> f.nf, nt |-> f.nt])

(* ---- transitions: outcomes [s, ret, eff, ev] ---- *)
Res(s, ret) == [s |-> s, ret |-> ret, eff |-> Nothing, ev |-> Idle]
Unspec == -99   \* not specified
Do(st, c) ==
  CASE c.op = "LgNames" -> {Res([st EXCEPT !.names = c.names], 0)}
    [] c.op = "LgEnv" -> {Res([st EXCEPT !.env = [st.env EXCEPT ![c.var] = c.v]], 0)}
    [] c.op = "LgClock" -> {Res([st EXCEPT !.clk = [fail |-> c.fail, d |-> c.d]], 0)}
    [] c.op = "LgTty" -> {Res([st EXCEPT !.tty = c.tty], 0)}
    [] c.op = "LgBegin" -> {Res(Init0, 0)}
    [] c.op = "LgInit" ->
         IF st.up THEN {Res(st, OK)}
         ELSE IF c.k = 2 THEN {Res(st, INVALID)}
         ELSE {[s |-> x.s, ret |-> x.ret, eff |-> IF x.ret = OK THEN Nothing ELSE Noise, ev |-> Idle] : x \in Boot(st, c.k = 0, Denied(c))}
    [] c.op = "LgShutdown" -> {Res([st EXCEPT !.up = FALSE, !.lv = Empty], OK)}
    [] c.op = "LgSetH" -> {Res(IF a.up THEN [a EXCEPT !.hd = c.h] ELSE a, 0) : a \in Auto(st, c)}
    [] c.op = "LgGetH" -> {Res(a, IF a.up THEN a.hd ELSE Unspec) : a \in Auto(st, c)}
    [] c.op = "LgSet" ->
         UNION {IF c.n = NULL THEN {Res(a, INVALID)}
                ELSE IF ~a.up THEN {Res(a, SEVMAPINVALID)}
                ELSE IF c.lv \notin Settable THEN {Res(a, INVALID)}
                ELSE IF c.n = <<>> THEN {Res([a EXCEPT !.def = c.lv], OK)}
                ELSE {Res([a EXCEPT !.lv = Put(a.lv, c.n, c.lv)], OK)}
                     \cup (IF c.refused > 0 THEN {[Res(a, ERROR) EXCEPT !.eff = Noise]} ELSE {}) : a \in Auto(st, c)}
    [] c.op = "LgSetDef" -> {Res(IF a.up THEN [a EXCEPT !.def = IF c.lv = 0 THEN INFO ELSE c.lv] ELSE a, 0) : a \in Auto(st, c)}
    [] c.op = "LgDef" -> {Res(a, IF a.up THEN a.def ELSE Unspec) : a \in Auto(st, c)}
    [] c.op = "LgOwn" ->
         UNION {IF c.n = NULL THEN {Res(a, -1)}
                ELSE {Res(a, IF a.up THEN Own(a, c.n) ELSE Unspec)}
                     \cup (IF c.refused > 0 THEN {[Res(a, -1) EXCEPT !.eff = Noise]} ELSE {}) : a \in Auto(st, c)}
    [] c.op = "LgEff" ->
         UNION {IF c.n = NULL THEN {Res(a, -1)}
                ELSE {Res(a, IF a.up THEN Effective(a, c.n) ELSE Unspec)}
                     \cup (IF c.refused > 0 THEN {[Res(a, -1) EXCEPT !.eff = Noise]} ELSE {}) : a \in Auto(st, c)}
    [] c.op = "LgEn" ->
         UNION {{Res(a, IF ~a.up THEN Unspec ELSE IF Enabled(a, c.n, c.sev) THEN 1 ELSE 0)}
                \cup (IF c.refused > 0 THEN {[Res(a, 0) EXCEPT !.eff = Noise]} ELSE {}) : a \in Auto(st, c)}
    [] c.op = "LgLog" ->
         IF c.k = 1 THEN (IF st.up THEN {[Res(st, 0) EXCEPT !.eff = Deliver(st, Msg(c))]} ELSE {})
         ELSE {IF ~a.up THEN [Res(a, 0) EXCEPT !.eff = IF c.n = NULL THEN Lax ELSE Noise]
               ELSE IF ~Enabled(a, c.n, c.sev) THEN Res(a, 0)
               ELSE [Res(a, 0) EXCEPT !.eff = Deliver(a, Msg(c))] : a \in Auto(st, c)}
    [] c.op = "LgConsole" -> {[Res(st, 0) EXCEPT !.eff = Console(st, Msg(c), c.ts)]}
    [] c.op = "LgFmt" -> {Res(st, OK)} \cup (IF c.refused > 0 THEN {[Res(st, ERROR) EXCEPT !.eff = Noise]} ELSE {})
    [] c.op = "LgMacro" -> IF c.sev < MinSev(c.lib) THEN {Macro(st, c)}
         ELSE UNION {IF a.up THEN {Macro(a, c)} ELSE Unstarted(a, c) : a \in Auto(st, c)}
    [] OTHER -> {}

(* ---- observation ---- *)
HasRet(e) == e.op \in {"LgInit", "LgShutdown", "LgGetH", "LgSet", "LgDef", "LgOwn", "LgEff", "LgEn", "LgFmt"}
Observed(e) == e.op \notin {"LgNames", "LgEnv", "LgClock", "LgTty", "LgBegin"}
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
(* the streams: `text` on the configured one in one piece and promptly unless it is fully buffered;
   standard error may also carry notices when something went wrong *)
Streams(s, eff, e) ==
  LET c == s.cfg.stream
      main == IF c = 1 THEN e.out ELSE e.err
  IN /\ (c = 2 => e.out = <<>>)
     /\ (IF eff.wild THEN TRUE
         ELSE IF c = 1 THEN e.out = eff.text /\ (eff.noise \/ e.err = <<>>)
         ELSE e.err = eff.text \/ (eff.noise /\ IsSuffixOf(eff.text, e.err)))
     /\ (s.mode[1] = 0 => e.outn = Len(e.out))
     /\ (s.mode[2] = 0 => e.errn = Len(e.err))
FmtOk(st, e) ==
  (e.op = "LgFmt" /\ e.ret = OK /\ ~st.cfg.wild) =>
    e.text = e.pre \o (IF st.up THEN Expand(st.cfg.pieces, [sev |-> e.sev, name |-> e.n, msg |-> e.m, ts |-> e.ts, loc |-> e.loc,
                                                            func |-> e.func, file |-> e.file, line |-> e.line]) ELSE <<>>)
EffOk(st, x, e) ==
  \* a call during which memory was refused may have delivered nothing, or reported the failure as an error message
  LET eff == IF BootNoise(st) THEN [x.eff EXCEPT !.noise = TRUE] ELSE x.eff
      lost == [Nothing EXCEPT !.noise = TRUE, !.wild = (x.s.hd = 1)]
  IN \/ e.dl = eff.dl /\ Streams(x.s, eff, e)
     \/ eff.wild /\ Len(e.dl) <= 2 /\ (x.s.hd = 1 => e.dl = <<>>) /\ (eff.dl # <<>> => e.dl # <<>> /\ e.dl[Len(e.dl)] = eff.dl[1])
     \/ e.refused > 0 /\ Streams(x.s, lost, e) /\ \A i \in 1 .. Len(e.dl) : e.dl[i][1] = x.s.hd /\ e.dl[i][2] = 40
EvOk(x, e) ==
  e.op = "LgMacro" =>
    (\/ e.nx = x.ev.nx /\ e.nf = x.ev.nf /\ e.nt = x.ev.nt
     \/ e.refused > 0 /\ e.nx + e.nf + e.nt <= x.ev.nx + x.ev.nf + x.ev.nt)
Lasting(s, e) ==
  /\ e.up = s.up
  /\ (s.up => /\ e.dfl = s.def /\ e.hdl = s.hd
              /\ Len(e.ob) = Len(s.names)
              /\ \A i \in 1 .. Len(s.names) : e.ob[i] = <<Own(s, s.names[i]), Effective(s, s.names[i])>>)
  /\ e.m1 = s.mode[1] /\ e.m2 = s.mode[2]
(* memory: nothing bypasses the allocator in force, calls that keep nothing leave nothing, and
   shutting down returns everything *)
Memory(st, s, e) ==
  /\ e.bad = 0 /\ e.absurd = 0
  /\ ((IF st.up THEN st.mine ELSE e.op \in {"LgInit", "LgShutdown", "LgConsole", "LgFmt"} /\ ~(e.op = "LgInit" /\ e.k = 1)) => e.raw = 0)
  /\ (~s.up => e.rl = 0 /\ e.live = 0)
  /\ (e.op \notin {"LgInit", "LgShutdown", "LgSet"} => e.live = st.led)
(* a site whose condition was not reached because memory was refused keeps what it remembered *)
States(st, x, e) ==
  {x.s} \cup (IF e.op = "LgMacro" /\ e.refused > 0 THEN {[x.s EXCEPT !.sites = st.sites]} ELSE {})
Step(st, e) ==
  IF ~Observed(e) THEN {[x.s EXCEPT !.led = e.live] : x \in Do(st, e)}
  ELSE UNION {{[s EXCEPT !.led = e.live] : s \in {y \in States(st, x, e) : Lasting(y, e) /\ Memory(st, y, e)}} :
    x \in {y \in Do(st, e) : /\ (HasRet(e) => y.ret \in {e.ret, Unspec})
                             /\ EffOk(st, y, e) /\ EvOk(y, e) /\ FmtOk(st, e)}}
Ops == {"LgNames", "LgEnv", "LgClock", "LgTty", "LgBegin", "LgInit", "LgShutdown", "LgSetH", "LgGetH", "LgSet", "LgSetDef", "LgDef",
        "LgOwn", "LgEff", "LgEn", "LgLog", "LgConsole", "LgFmt", "LgMacro"}
=============================================================================
