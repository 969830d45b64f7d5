CONSTANTS
  K = {0, 1, 2}
  V = {0, 1}
  VARS = {0, 1}
  MAXCAP = 8
  CAPS = {1, 2, 3}
  ITER = FALSE
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Sane Total Contained
