SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "stay"
INVARIANT Right
CHECK_DEADLOCK FALSE
