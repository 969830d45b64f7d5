CONSTANTS
  DEPTH = 3
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS DecodeRight ExpandRight Lossless LineEnds
