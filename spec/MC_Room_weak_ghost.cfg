SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "ghost"
INVARIANT Right
CHECK_DEADLOCK FALSE
