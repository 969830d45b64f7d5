SPECIFICATION Spec
CONSTANTS CHARS = {47, 97, 46}
LEN = 10
INVARIANTS NeverEmpty NoSlash OnlySlash Last Stable
CHECK_DEADLOCK FALSE
