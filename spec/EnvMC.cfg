CONSTANTS
  N = {1, 3, 5}
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Total Lawful InjectedContained
