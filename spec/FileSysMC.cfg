CONSTANTS
  DEPTH = 2
  NODES = 3
  LINKS = TRUE
  ITERS = FALSE
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed SizeLaw SizeTotal MkdirLaw QueryLaw IterLaw
