SPECIFICATION SpecP
CONSTANTS
  N = 6
  Flaw = ""
INVARIANTS Sorted Contents
CHECK_DEADLOCK FALSE
