CONSTANTS
  NS = 2
  MAXLEN = 2
  EMIT = TRUE
  TWO = TRUE
SPECIFICATION Spec
INVARIANTS Sane SortUnique ResizeKeeps Contained
