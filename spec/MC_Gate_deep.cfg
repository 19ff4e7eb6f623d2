SPECIFICATION Spec
CONSTANTS N = 4 MaxT = 5 MaxFor = 1 MaxDup = 1 Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
