SPECIFICATION SpecW
CONSTANTS
  N = 6
  Flaw = ""
  Long = FALSE
INVARIANTS Amortised Affordable
CHECK_DEADLOCK FALSE
