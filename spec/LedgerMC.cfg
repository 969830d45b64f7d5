CONSTANTS
  B = 2
  LEN = 2
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS Balanced Owned Refuses
