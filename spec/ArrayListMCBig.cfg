CONSTANTS
  NV = 3
  MAXLEN = 8
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Sane Total OutOfRange RemoveCloses
PROPERTIES Steady
