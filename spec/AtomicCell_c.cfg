CONSTANTS
  T = {0,1,2}
  ALGO = "atomic"
  F = "c"
SPECIFICATION Spec
INVARIANTS Admitted Conserved
