SPECIFICATION Spec
CONSTANT H = 16
INVARIANT Accepted
CHECK_DEADLOCK FALSE
