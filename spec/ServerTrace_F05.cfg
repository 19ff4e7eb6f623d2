SPECIFICATION Spec
INVARIANT F05
VIEW Where
CHECK_DEADLOCK FALSE
