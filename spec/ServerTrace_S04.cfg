SPECIFICATION Spec
INVARIANT S04
VIEW Where
CHECK_DEADLOCK FALSE
