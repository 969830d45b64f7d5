CONSTANTS
  NS = 2
  MAXLEN = 2
  EMIT = FALSE
  TWO = TRUE
SPECIFICATION Spec
INVARIANTS Sane SortUnique ResizeKeeps Contained InjectedContained
PROPERTIES OnlyOne
