SPECIFICATION Spec
CONSTANT GenLen = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
