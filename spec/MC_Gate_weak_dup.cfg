SPECIFICATION Spec
CONSTANTS N = 3 MaxT = 4 MaxFor = 1 MaxDup = 1 Weak = "dup"
INVARIANT Right
CHECK_DEADLOCK FALSE
