CONSTANTS
  MAXCAP = 4
  MAXSTR = 2
  EMIT = TRUE
  PART = "c"
SPECIFICATION Spec
INVARIANTS Sane AppendIsConcat Contained
