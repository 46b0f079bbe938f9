SPECIFICATION Spec
CONSTANT Strict = TRUE
CHECK_DEADLOCK FALSE
