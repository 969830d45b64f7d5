CONSTANTS
  FOCUS = "macros"
  NAMES = {1}
  DEPTH = 99
  EMIT = TRUE
SPECIFICATION Spec
