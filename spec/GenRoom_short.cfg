SPECIFICATION Spec
CONSTANTS GenLen = 14 MaySlow = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
