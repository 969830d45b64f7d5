----------------------------- MODULE LogFormat -----------------------------
(* The text of a log line: escape sequences, brace tokens, printf-like rendering of the message and
   colours (C13).  Texts are sequences of character codes. *)
EXTENDS Common
LOCAL INSTANCE SequencesExt
Cl == INSTANCE Clock

FormatLimit == 2047
PieceLimit == 1024
BS == 92
(* "[{severity}] [{time}] [{name}]: {message}" *)
DefaultFormat == <<91,123,115,101,118,101,114,105,116,121,125,93,32,91,123,116,105,109,101,125,93,32,91,123,110,97,109,
  101,125,93,58,32,123,109,101,115,115,97,103,101,125>>

(* ---- escape sequences: \a \b \n \r \t and \x1b; a backslash before anything else is copied
   together with that character.  mode 0: ordinary, 1: after \, 2: after \x, 3: after \x1 ---- *)
Simple(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 0
Plain(d, c) == IF c = BS THEN [m |-> 1, o |-> d] ELSE [m |-> 0, o |-> Append(d, c)]
DecodeStep(a, c) ==
  CASE a.m = 0 -> Plain(a.o, c)
    [] a.m = 1 -> IF Simple(c) # 0 THEN [m |-> 0, o |-> Append(a.o, Simple(c))]
                  ELSE IF c = 120 THEN [m |-> 2, o |-> a.o]
                  ELSE [m |-> 0, o |-> a.o \o <<BS, c>>]
    [] a.m = 2 -> IF c = 49 THEN [m |-> 3, o |-> a.o] ELSE Plain(a.o \o <<BS, 120>>, c)
    [] a.m = 3 -> IF c = 98 THEN [m |-> 0, o |-> Append(a.o, 27)] ELSE Plain(a.o \o <<BS, 120, 49>>, c)
Decode(f) ==
  LET r == FoldLeft(DecodeStep, [m |-> 0, o |-> <<>>], Head2(f, FormatLimit))
  IN r.o \o (CASE r.m = 0 -> <<>> [] r.m = 1 -> <<BS>> [] r.m = 2 -> <<BS, 120>> [] r.m = 3 -> <<BS, 120, 49>>)
(* an escape sequence cut by the limit is not specified *)
CutEscape(f) == Len(f) > FormatLimit /\ \E i \in FormatLimit - 2 .. FormatLimit : f[i] = BS

(* ---- tokens ---- *)
TSeverity == <<115,101,118,101,114,105,116,121>>
TName == <<110,97,109,101>>
TMessage == <<109,101,115,115,97,103,101>>
TFunction == <<102,117,110,99,116,105,111,110,95,110,97,109,101>>
TFile == <<102,105,108,101,95,110,97,109,101>>
TTime == <<116,105,109,101>>
TDate == <<100,97,116,101,95,116,105,109,101,95,119,105,116,104,95,109,115>>
TNano == <<116,105,109,101,95,97,115,95,110,97,110,111,115,101,99,111,110,100,115>>
TLine == <<108,105,110,101,95,110,117,109,98,101,114>>
Tokens9 == {TSeverity, TName, TMessage, TFunction, TFile, TTime, TDate, TNano, TLine}

SevName(s) ==
  CASE s = 0 -> <<85,78,83,69,84>> [] s = 10 -> <<68,69,66,85,71>> [] s = 20 -> <<73,78,70,79>>
    [] s = 30 -> <<87,65,82,78>> [] s = 40 -> <<69,82,82,79,82>> [] s = 50 -> <<70,65,84,65,76>>
Severities == {10, 20, 30, 40, 50}

(* x: [sev, name, msg, ts (19 digits), loc, func, file, line] *)
Value(t, x) ==
  CASE t = TSeverity -> SevName(x.sev)
    [] t = TName -> IF x.name = NULL THEN <<>> ELSE x.name
    [] t = TMessage -> x.msg
    [] t = TFunction -> IF x.loc THEN x.func ELSE <<>>
    [] t = TFile -> IF x.loc THEN x.file ELSE <<>>
    [] t = TLine -> IF x.loc THEN Head2(x.line, 9) ELSE <<>>
    [] t = TTime -> Cl!SecText(FALSE, x.ts)
    [] t = TNano -> Cl!NsText(FALSE, x.ts)
    [] t = TDate -> Cl!DateText(x.ts, 0)

MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
(* the pieces of a decoded format from position i: <<"text", ...>> is copied, <<"token", t>> is replaced *)
RECURSIVE Pieces(_, _)
Pieces(f, i) ==
  IF i > Len(f) THEN <<>>
  ELSE LET O == {j \in i .. Len(f) : f[j] = 123} IN
    IF O = {} THEN <<[tok |-> FALSE, t |-> SubSeq(f, i, Len(f))]>>
    ELSE LET o == MinOf(O)
             C == {j \in o .. Len(f) : f[j] = 125}
             before == IF o > i THEN <<[tok |-> FALSE, t |-> SubSeq(f, i, o - 1)]>> ELSE <<>>
         IN IF C = {} THEN before \o <<[tok |-> FALSE, t |-> SubSeq(f, o, Len(f))]>>
            ELSE LET c == MinOf(C)
                     w == SubSeq(f, o + 1, c - 1)
                 IN IF w \in Tokens9 THEN before \o <<[tok |-> TRUE, t |-> w]>> \o Pieces(f, c + 1)
                    ELSE before \o <<[tok |-> FALSE, t |-> <<123>>]>> \o Pieces(f, o + 1)
Expand(pieces, x) ==
  FoldLeft(LAMBDA acc, p : acc \o (IF p.tok THEN Value(p.t, x) ELSE p.t), <<>>, pieces)

(* ---- printf with the two arguments (char *, int): %s and %d in that order, %% ---- *)
RECURSIVE RenderFrom(_, _, _, _)
RenderFrom(fmt, i, s, n) ==
  LET P == {j \in i .. Len(fmt) : fmt[j] = 37} IN
  IF P = {} THEN SubSeq(fmt, i, Len(fmt))
  ELSE LET p == MinOf(P) IN
    SubSeq(fmt, i, p - 1)
      \o (CASE fmt[p + 1] = 115 -> s [] fmt[p + 1] = 100 -> Dec(n) [] fmt[p + 1] = 37 -> <<37>>)
      \o RenderFrom(fmt, p + 2, s, n)
Render(fmt, s, n) == RenderFrom(fmt, 1, s, n)

(* ---- colours ---- *)
Reset == <<27, 91, 48, 109>>
Colour(sev) == CASE sev = 10 -> <<27,91,51,50,109>> [] sev = 20 -> Reset [] sev = 30 -> <<27,91,51,51,109>>
                 [] sev \in {40, 50} -> <<27,91,51,49,109>>
Line(pieces, x, colour) ==
  (IF colour THEN Colour(x.sev) ELSE <<>>) \o Expand(pieces, x) \o (IF colour THEN Reset ELSE <<>>) \o <<10>>
=============================================================================
