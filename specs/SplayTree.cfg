SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Sorted Contents RootIsClosest Neighbours
CHECK_DEADLOCK FALSE
