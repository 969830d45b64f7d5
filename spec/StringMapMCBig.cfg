CONSTANTS
  NK = 3
  NV = 2
  MAXCAP = 4
  EMIT = FALSE
  TWO = TRUE
SPECIFICATION Spec
INVARIANTS Sane ReserveKeeps FullIsRefused
PROPERTIES SourceUnchanged
