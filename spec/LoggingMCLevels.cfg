CONSTANTS
  FOCUS = "levels"
  NAMES = {1,2,3,5}
  DEPTH = 99
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS HierarchyRight Frame EnabledUpwards Fresh Idempotent ConfigSane OnceOnce SkipsFirst Spaced
