SPECIFICATION Spec
INVARIANT S03
VIEW Where
CHECK_DEADLOCK FALSE
