CONSTANTS
  T = {0,1}
  ALGO = "torn"
  F = "c"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
