CONSTANTS
  T = {0,1,2}
  PER = 2
  ALGO = "own"
SPECIFICATION Spec
INVARIANTS Admitted AtEnd
