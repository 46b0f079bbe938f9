SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 2
    Flaw = ""
INVARIANTS Antisymmetric OrderOfHeights EqualIsCollinear StartFindsPlace OnePosition Preorder
CHECK_DEADLOCK FALSE
