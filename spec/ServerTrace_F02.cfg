SPECIFICATION Spec
INVARIANT F02
VIEW Where
CHECK_DEADLOCK FALSE
