CONSTANTS
  FOCUS = "levels"
  NAMES = {1,2,4}
  DEPTH = 99
  EMIT = TRUE
SPECIFICATION Spec
