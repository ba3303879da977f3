SPECIFICATION Spec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
CONSTANTS N = 5
 F = 2
