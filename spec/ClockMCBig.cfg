CONSTANTS
  DAYS = 110000
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS CalendarRight DivRight Exact
PROPERTIES Monotonic
