CONSTANTS
  NK = 3
  NV = 2
  MAXCAP = 4
  EMIT = TRUE
  TWO = FALSE
SPECIFICATION Spec
INVARIANTS Sane Contained
