CONSTANTS
  DEPTH = 2
  NODES = 3
  LINKS = FALSE
  ITERS = TRUE
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed SizeLaw SizeTotal MkdirLaw QueryLaw IterLaw
