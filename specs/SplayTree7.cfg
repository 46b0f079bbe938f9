SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS Sorted Contents RootIsClosest Neighbours
CHECK_DEADLOCK FALSE
