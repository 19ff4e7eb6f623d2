SPECIFICATION Spec
INVARIANT S07
VIEW Where
CHECK_DEADLOCK FALSE
