SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "deaf"
INVARIANT Right
CHECK_DEADLOCK FALSE
