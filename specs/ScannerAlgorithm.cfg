SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 2
    Flaw = ""
INVARIANTS Sound PositionRefines OnEdges Upright
CHECK_DEADLOCK FALSE
