SPECIFICATION Spec
INVARIANT R01
VIEW Where
CHECK_DEADLOCK FALSE
