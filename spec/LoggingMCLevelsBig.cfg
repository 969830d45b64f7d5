CONSTANTS
  FOCUS = "levels"
  NAMES = {1,2,3,4,5,6,7}
  DEPTH = 99
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS HierarchyRight Frame
