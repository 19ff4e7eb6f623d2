SPECIFICATION Spec
INVARIANT S05
VIEW Where
CHECK_DEADLOCK FALSE
