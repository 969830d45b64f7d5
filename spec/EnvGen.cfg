CONSTANTS
  N = {3, 5}
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Total Lawful
