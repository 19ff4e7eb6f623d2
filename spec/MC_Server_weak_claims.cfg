SPECIFICATION Spec
VIEW View
CONSTANTS
  Ids = {"a", "b"}
  Names = {1, 2, 4}
  Offers = {"good", "bad"}
  NReq = 3
  NLeave = 2
  NFlow = 2
  Weak = "claims"
INVARIANTS Ok AtRest Progress
CHECK_DEADLOCK FALSE
