CONSTANTS
  FOCUS = "start"
  NAMES = {1}
  DEPTH = 99
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS HierarchyRight Frame EnabledUpwards Fresh Idempotent ConfigSane InjectedContained OnceOnce SkipsFirst Spaced
