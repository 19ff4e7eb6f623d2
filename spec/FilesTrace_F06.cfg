SPECIFICATION Spec
INVARIANT F06
VIEW Where
CHECK_DEADLOCK FALSE
