CONSTANTS
  C = {0}
  SIZES = {0, 1, 8, 55, 56, 63, 64, 65, 127, 128}
  MAX = 300
  RUNS = 3
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS CuttingDoesNotMatter
