CONSTANTS
  NV = 2
  MAXLEN = 6
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Sane Total OutOfRange RemoveCloses Contained
PROPERTIES Steady
