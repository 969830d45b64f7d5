------------------------------- MODULE Ledger -------------------------------
(* Memory and the allocator it came from (C08), for every type and call at once.

   A call is seen as what it does to the caller's allocator: the sequence e.mem of
     <<1, b>> block b obtained           <<2, b>> block b released        <<3, 0>> a request refused
     <<4, 0>> something released or reallocated which is not outstanding
     <<5, 0>> memory of the C library used directly instead of the caller's allocator
     <<6, 0>> the allocator called with another state pointer.
   State: live, the outstanding blocks, each with the object on whose behalf it was obtained. *)
EXTENDS Common
LOCAL INSTANCE SequencesExt

Init0 == [live |-> Empty]
None == <<0, 0>>     \* a call that works for no object: a string or a number is its result
Hm == {"HmInit", "HmSet", "HmUnset", "HmGet", "HmNext", "HmIter", "HmNulls", "HmFini"}
Sm == {"SmInit", "SmFini", "SmReserve", "SmClear", "SmSet", "SmSetNR", "SmUnset", "SmCopy", "SmGet", "SmGetN", "SmLook", "SmNextForeign", "SmNulls"}
Al == {"AlInit", "AlFini", "AlAdd", "AlSet", "AlRemove", "AlGet", "AlNulls"}
Sa == {"SaInit", "SaPut", "SaResize", "SaFini", "SaCmp", "SaSort"}
Ca == {"CaInit", "CaFini", "CaResize", "CaExpand", "CaPrintf", "CaStrcpy", "CaStrcat", "CaStrncat", "CaMemcpy", "CaWrap"}
Ua == {"UaInit", "UaFini", "UaResize", "UaFill"}
Fs == {"FsIter", "FsNext", "FsEnd"}
Sl == {"SlLoad", "SlUnload", "SlSym"}
Am == {"AmNew", "AmZero", "AmRe", "AmFree"}
Lg == {"LgInit", "LgShutdown", "LgSet", "LgBegin"}
Owner(e) ==
  CASE e.op \in Hm -> <<1, 0>> [] e.op \in Sm -> <<2, e.slot>> [] e.op \in Al -> <<3, 0>> [] e.op \in Sa -> <<4, e.slot>>
    [] e.op \in Ca -> <<5, 0>> [] e.op \in Ua -> <<6, 0>> [] e.op \in Fs -> <<7, e.h>> [] e.op \in Sl -> <<8, e.h>>
    [] e.op \in Am -> <<10, e.i>> [] e.op \in Lg -> <<9, 0>> [] OTHER -> None
Starts == {"HmInit", "SmInit", "AlInit", "SaInit", "CaInit", "UaInit", "FsIter", "SlLoad", "LgInit"}
Ends == {"HmFini", "SmFini", "AlFini", "SaFini", "CaFini", "UaFini", "FsEnd", "SlUnload", "LgShutdown", "AmFree"}
(* the outcome of a call that starts or ends an object *)
Good(e) == CASE e.op = "FsIter" -> e.ret [] e.op \in {"FsEnd", "AmFree"} -> TRUE [] OTHER -> e.ret = OK

(* one thing done to the allocator, for object x.o *)
Apply(x, m) ==
  IF ~x.ok THEN x
  ELSE CASE m[1] = 1 -> [x EXCEPT !.ok = m[2] \notin DOMAIN x.live, !.live = Put(x.live, m[2], x.o)]
         [] m[1] = 2 -> IF m[2] \in DOMAIN x.live /\ (x.live[m[2]] = x.o) THEN [x EXCEPT !.live = Del(x.live, m[2])] ELSE [x EXCEPT !.ok = FALSE]
         [] m[1] = 3 -> x
         [] m[1] = 5 -> IF x.lax THEN x ELSE [x EXCEPT !.ok = FALSE]
         [] OTHER -> [x EXCEPT !.ok = FALSE]
Of(live, o) == {b \in DOMAIN live : live[b] = o}
Logs == {"LgInit", "LgShutdown", "LgSetH", "LgGetH", "LgSet", "LgSetDef", "LgDef", "LgOwn", "LgEff", "LgEn", "LgLog", "LgConsole", "LgFmt", "LgMacro",
         "LgBegin", "LgNames", "LgEnv", "LgClock", "LgTty"}
(* the C library's allocator may be used to report that memory has run out, and is what logging
   uses when it starts itself *)
Lax(e) == e.refused > 0 \/ e.op \in Logs \/ e.op \in Am   \* the default allocator itself
Step(st, e) ==
  IF e.op = "Quiet" THEN (LET x == FoldLeft(Apply, [o |-> <<9, 0>>, ok |-> TRUE, live |-> st.live, lax |-> TRUE], e.mem)
                          IN IF x.ok /\ DOMAIN x.live = {} THEN {Init0} ELSE {})   \* everything has been finalised
  ELSE LET o == Owner(e)
           x == FoldLeft(Apply, [o |-> o, ok |-> TRUE, live |-> st.live, lax |-> Lax(e)], e.mem)
           ok == /\ x.ok /\ e.absurd = 0
                 /\ (o = None => x.live = st.live)                                   \* nothing is left, nothing of others touched
                 /\ (e.op \in Starts => (Good(e) \/ Of(x.live, o) = Of(st.live, o))) \* a failed start leaves nothing
                 /\ (e.op \in Ends => (Good(e) => Of(x.live, o) = {}))               \* nothing remains of a finalised object
       IN IF ok THEN {[live |-> x.live]} ELSE {}
=============================================================================
