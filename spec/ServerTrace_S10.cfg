SPECIFICATION Spec
INVARIANT S10
VIEW Where
CHECK_DEADLOCK FALSE
