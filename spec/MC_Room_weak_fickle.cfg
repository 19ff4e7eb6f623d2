SPECIFICATION Spec
CONSTANTS NReq = 2 MaxT = 5 Weak = "fickle"
INVARIANT Right
CHECK_DEADLOCK FALSE
