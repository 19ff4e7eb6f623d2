SPECIFICATION Spec
INVARIANT S01
VIEW Where
CHECK_DEADLOCK FALSE
