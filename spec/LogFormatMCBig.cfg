CONSTANTS
  DEPTH = 4
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS DecodeRight ExpandRight Lossless LineEnds
