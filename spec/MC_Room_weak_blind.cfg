SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "blind"
INVARIANT Right
CHECK_DEADLOCK FALSE
