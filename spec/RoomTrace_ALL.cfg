SPECIFICATION Spec
INVARIANT ALL
VIEW Where
CHECK_DEADLOCK FALSE
