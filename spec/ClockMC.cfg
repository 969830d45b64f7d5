CONSTANTS
  DAYS = 12000
  EMIT = FALSE
SPECIFICATION Spec
INVARIANTS CalendarRight DivRight Exact
PROPERTIES Monotonic
