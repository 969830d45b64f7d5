CONSTANTS
  NK = 2
  NV = 1
  MAXCAP = 2
  EMIT = FALSE
  TWO = TRUE
SPECIFICATION Spec
INVARIANTS Sane ReserveKeeps FullIsRefused Contained
PROPERTIES SourceUnchanged
