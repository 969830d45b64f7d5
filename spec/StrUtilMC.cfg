CONSTANTS
  SLEN = 6
  FLEN = 2
  TLEN = 2
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SplitLaws SplitLastLaws FindLaws ReplLaws CaseLaws CliLaws SevLaws
