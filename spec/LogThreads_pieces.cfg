CONSTANTS
  T = {0,1}
  PER = 2
  ALGO = "pieces"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
