CONSTANTS
  T = {0,1}
  PER = 2
  ALGO = "lost"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
