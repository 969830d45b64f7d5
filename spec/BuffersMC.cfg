CONSTANTS
  MAXCAP = 7
  MAXSTR = 2
  EMIT = FALSE
  PART = "c"
SPECIFICATION Spec
INVARIANTS Sane AppendIsConcat Contained
PROPERTIES NeverShrinksOnWrite
