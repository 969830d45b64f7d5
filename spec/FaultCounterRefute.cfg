CONSTANTS
  T = {0,1}
  N0 = 2
  PER = 2
  ALGO = "split"
  SETTER = 9
SPECIFICATION Spec
INVARIANTS Witness
POSTCONDITION Refuted
