CONSTANTS
  NS = 2
  MAXLEN = 3
  EMIT = FALSE
  TWO = TRUE
SPECIFICATION Spec
INVARIANTS Sane SortUnique ResizeKeeps InjectedContained
PROPERTIES OnlyOne
