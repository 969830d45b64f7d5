CONSTANTS
  MAXCAP = 9
  MAXSTR = 3
  EMIT = FALSE
  PART = "c"
SPECIFICATION Spec
INVARIANTS Sane AppendIsConcat
PROPERTIES NeverShrinksOnWrite
