CONSTANTS
  T = {0, 1}
  EMIT = FALSE
  MAXLEN = 30
SPECIFICATION Spec
INVARIANTS Sane Total InitIdempotent ReadingChangesNothing NothingLost
PROPERTIES Private
