SPECIFICATION Spec
INVARIANT S02
VIEW Where
CHECK_DEADLOCK FALSE
