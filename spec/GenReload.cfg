SPECIFICATION Spec
CONSTANT GenLen = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
