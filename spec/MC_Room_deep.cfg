SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 9 Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
