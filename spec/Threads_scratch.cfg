CONSTANTS
  T = {0,1}
  PER = 2
  ALGO = "scratch"
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
