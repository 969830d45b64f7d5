CONSTANTS
  T = {0,1,2}
  PER = 3
  ALGO = "own"
SPECIFICATION Spec
INVARIANTS Admitted
