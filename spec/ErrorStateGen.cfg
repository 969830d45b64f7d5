CONSTANTS
  T = {0, 1}
  EMIT = TRUE
  MAXLEN = 1
SPECIFICATION Spec
INVARIANTS Sane Total
