SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "room"
INVARIANT Right
CHECK_DEADLOCK FALSE
