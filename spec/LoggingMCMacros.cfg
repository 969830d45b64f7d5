CONSTANTS
  FOCUS = "macros"
  NAMES = {1}
  DEPTH = 4
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS HierarchyRight Frame EnabledUpwards Fresh Idempotent ConfigSane OnceOnce SkipsFirst Spaced
