CONSTANTS
  SLEN = 8
  FLEN = 3
  TLEN = 2
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SplitLaws SplitLastLaws FindLaws ReplLaws CaseLaws CliLaws SevLaws
