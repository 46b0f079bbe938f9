SPECIFICATION Spec
CONSTANTS
    W = 2
    H = 1
    Diag = 1
    Single = FALSE
    Ops = {"and", "or", "xor", "diff"}
    Flaw = ""
INVARIANTS Labels ChainsClose Parents Refines Valid
CHECK_DEADLOCK FALSE
