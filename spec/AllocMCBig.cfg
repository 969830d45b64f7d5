CONSTANTS
  I = {0, 1, 2}
  N = {0, 1, 3}
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Sane Law
