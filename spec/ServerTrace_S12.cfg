SPECIFICATION Spec
INVARIANT S12
VIEW Where
CHECK_DEADLOCK FALSE
