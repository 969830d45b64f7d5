CONSTANTS
  T = {0, 1}
  EMIT = FALSE
  MAXLEN = 14
SPECIFICATION Spec
INVARIANTS Sane Total InitIdempotent ReadingChangesNothing NothingLost
PROPERTIES Private
