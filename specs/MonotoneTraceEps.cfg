SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Cross <- CrossEps
