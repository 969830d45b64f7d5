CONSTANTS
  SLEN = 5
  FLEN = 2
  TLEN = 1
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS SplitLaws SplitLastLaws FindLaws ReplLaws CaseLaws CliLaws SevLaws
