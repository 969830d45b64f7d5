CONSTANTS
  H = {0, 1}
  EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Total Lawful Contained
