SPECIFICATION SpecP
CONSTANTS
  N = 5
  Flaw = ""
INVARIANTS Sorted Contents
CHECK_DEADLOCK FALSE
