CONSTANTS
  T = {0,1}
  PER = 2
  ALGO = "shared"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
