CONSTANTS
  DEPTH = 2
  NODES = 5
  LINKS = TRUE
  ITERS = TRUE
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed SizeLaw SizeTotal MkdirLaw QueryLaw IterLaw
