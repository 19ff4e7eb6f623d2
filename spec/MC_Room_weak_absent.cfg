SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "absent"
INVARIANT Right
CHECK_DEADLOCK FALSE
