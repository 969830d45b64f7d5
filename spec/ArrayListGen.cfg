CONSTANTS
  NV = 2
  MAXLEN = 5
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Sane Total OutOfRange RemoveCloses Contained
