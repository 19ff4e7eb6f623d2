SPECIFICATION Spec
INVARIANT H01
VIEW Where
CHECK_DEADLOCK FALSE
