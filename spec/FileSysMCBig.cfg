CONSTANTS
  DEPTH = 3
  NODES = 5
  LINKS = FALSE
  ITERS = TRUE
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed SizeLaw SizeTotal MkdirLaw QueryLaw IterLaw
