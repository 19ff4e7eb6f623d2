SPECIFICATION Spec
INVARIANT L01
VIEW Where
CHECK_DEADLOCK FALSE
