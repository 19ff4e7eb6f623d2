SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
