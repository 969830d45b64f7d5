CONSTANTS
  T = {0,1,2}
  ALGO = "atomic"
  F = "a"
SPECIFICATION Spec
INVARIANTS Admitted Conserved
