CONSTANTS
  DEPTH = 2
  NODES = 2
  LINKS = TRUE
  ITERS = FALSE
  EMIT = TRUE
SPECIFICATION Spec
