SPECIFICATION Spec
CONSTANTS N = 3 MaxT = 4 MaxFor = 1 MaxDup = 1 Weak = "empty"
INVARIANT Right
CHECK_DEADLOCK FALSE
