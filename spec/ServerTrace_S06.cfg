SPECIFICATION Spec
INVARIANT S06
VIEW Where
CHECK_DEADLOCK FALSE
