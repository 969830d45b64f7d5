CONSTANTS
  T = {0,1}
  PER = 2
  ALGO = "late"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
