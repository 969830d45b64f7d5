CONSTANTS
  MAXCAP = 7
  MAXSTR = 2
  EMIT = FALSE
  PART = "u"
SPECIFICATION Spec
INVARIANTS Sane AppendIsConcat
PROPERTIES NeverShrinksOnWrite
