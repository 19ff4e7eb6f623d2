SPECIFICATION Spec
VIEW View
CONSTANTS
  Ids = {"a", "b"}
  Names = {1, 2, 4}
  Offers = {"good", "bad"}
  NReq = 4
  NLeave = 1
  NFlow = 1
  Weak = ""
INVARIANTS Ok AtRest Progress
CHECK_DEADLOCK FALSE
