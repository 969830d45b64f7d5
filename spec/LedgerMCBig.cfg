CONSTANTS
  B = 3
  LEN = 2
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS Balanced Owned Refuses
