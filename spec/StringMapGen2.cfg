CONSTANTS
  NK = 2
  NV = 1
  MAXCAP = 2
  EMIT = TRUE
  TWO = TRUE
SPECIFICATION Spec
INVARIANTS Sane Contained
