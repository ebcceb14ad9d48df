SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
