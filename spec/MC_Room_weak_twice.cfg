SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "twice"
INVARIANT Right
CHECK_DEADLOCK FALSE
