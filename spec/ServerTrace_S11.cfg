SPECIFICATION Spec
INVARIANT S11
VIEW Where
CHECK_DEADLOCK FALSE
