SPECIFICATION Spec
INVARIANT S09
VIEW Where
CHECK_DEADLOCK FALSE
