SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "all"
INVARIANT Right
CHECK_DEADLOCK FALSE
