SPECIFICATION Spec
INVARIANT F01
VIEW Where
CHECK_DEADLOCK FALSE
