CONSTANTS
  C = {0}
  SIZES = {0, 1, 55, 64, 65}
  MAX = 130
  RUNS = 3
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS CuttingDoesNotMatter
