CONSTANTS
  N = {1, 2, 3, 4, 5, 6}
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Total Lawful InjectedContained
