CONSTANTS
  T = {0,1}
  PER = 2
  ALGO = "state"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
