CONSTANTS
  K = {0, 1, 2}
  V = {0, 1}
  VARS = {0}
  MAXCAP = 16
  CAPS = {1, 2, 3, 5}
  ITER = TRUE
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Sane IterationCompletes Total Contained
PROPERTIES CapacityNeverShrinks GrowthOnlyWhenFull OnlyOneKeyChanges
