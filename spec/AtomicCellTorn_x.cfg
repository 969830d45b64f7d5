CONSTANTS
  T = {0,1}
  ALGO = "torn"
  F = "x"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
