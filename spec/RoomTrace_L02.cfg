SPECIFICATION Spec
INVARIANT L02
VIEW Where
CHECK_DEADLOCK FALSE
