SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
