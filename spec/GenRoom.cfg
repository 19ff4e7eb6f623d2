SPECIFICATION Spec
CONSTANTS GenLen = 14 MaySlow = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
