SPECIFICATION Spec
INVARIANT C02
VIEW Where
CHECK_DEADLOCK FALSE
