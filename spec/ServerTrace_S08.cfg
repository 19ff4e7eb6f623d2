SPECIFICATION Spec
INVARIANT S08
VIEW Where
CHECK_DEADLOCK FALSE
