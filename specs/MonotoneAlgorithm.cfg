SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 2
    Diag = 1
    Flaw = ""
INVARIANTS Sound LinksRefine HelpersRefine PiecesRefine TilesRefine
CHECK_DEADLOCK FALSE
