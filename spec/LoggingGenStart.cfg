CONSTANTS
  FOCUS = "start"
  NAMES = {1}
  DEPTH = 99
  EMIT = TRUE
SPECIFICATION Spec
