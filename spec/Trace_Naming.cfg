SPECIFICATION Spec
CONSTANT NC = 3
INVARIANT Accepted
CHECK_DEADLOCK FALSE
