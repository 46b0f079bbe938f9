SPECIFICATION Spec
CONSTANTS
    W = 3
    H = 3
    K = 3
    Scale = 840
    Strict = FALSE
    Flaw = ""
INVARIANTS Sound Refines PairsRefine Ending Sorted Chains
CHECK_DEADLOCK FALSE
