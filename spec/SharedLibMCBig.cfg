CONSTANTS
  H = {0, 1, 2}
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Total Lawful
