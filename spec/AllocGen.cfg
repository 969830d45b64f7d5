CONSTANTS
  I = {0}
  N = {0, 1, 3}
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Sane Law Contained
