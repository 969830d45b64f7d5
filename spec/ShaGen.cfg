CONSTANTS
  C = {0, 1}
  SIZES = {0, 56, 64}
  MAX = 130
  RUNS = 2
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS CuttingDoesNotMatter
