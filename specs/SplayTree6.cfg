SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Sorted Contents RootIsClosest Neighbours
CHECK_DEADLOCK FALSE
