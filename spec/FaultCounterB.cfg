CONSTANTS
  T = {0,1,2}
  N0 = 0
  PER = 2
  ALGO = "cas"
  SETTER = 2
SPECIFICATION Spec
INVARIANTS Admitted ExactlyOne AtMostOnePerArming
