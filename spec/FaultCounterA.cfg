CONSTANTS
  T = {0,1,2}
  N0 = 2
  PER = 3
  ALGO = "cas"
  SETTER = 9
SPECIFICATION Spec
INVARIANTS Admitted ExactlyOne AtMostOnePerArming
