CONSTANTS
  T = {0,1,2,3}
  N0 = 1
  PER = 2
  ALGO = "cas"
  SETTER = 9
SPECIFICATION Spec
INVARIANTS Admitted ExactlyOne AtMostOnePerArming
