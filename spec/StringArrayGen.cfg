CONSTANTS
  NS = 3
  MAXLEN = 3
  EMIT = TRUE
  TWO = FALSE
SPECIFICATION Spec
INVARIANTS Sane SortUnique ResizeKeeps Contained
