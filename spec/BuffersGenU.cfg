CONSTANTS
  MAXCAP = 4
  MAXSTR = 2
  EMIT = TRUE
  PART = "u"
SPECIFICATION Spec
INVARIANTS Sane AppendIsConcat Contained
