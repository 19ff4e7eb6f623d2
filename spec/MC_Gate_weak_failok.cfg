SPECIFICATION Spec
CONSTANTS N = 3 MaxT = 4 MaxFor = 1 MaxDup = 1 Weak = "failok"
INVARIANT Right
CHECK_DEADLOCK FALSE
