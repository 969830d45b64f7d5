CONSTANTS
  T = {0,1,2}
  ALGO = "atomic"
  F = "x"
SPECIFICATION Spec
INVARIANTS Admitted Conserved
