CONSTANTS
  T = {0,1}
  ALGO = "torn"
  F = "a"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
