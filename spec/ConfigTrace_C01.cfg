SPECIFICATION Spec
INVARIANT C01
VIEW Where
CHECK_DEADLOCK FALSE
