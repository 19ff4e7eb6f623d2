SPECIFICATION Spec
INVARIANT R02
VIEW Where
CHECK_DEADLOCK FALSE
