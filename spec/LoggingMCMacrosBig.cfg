CONSTANTS
  FOCUS = "macros"
  NAMES = {1}
  DEPTH = 7
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS OnceOnce SkipsFirst Spaced
