SPECIFICATION GenSpec
CONSTANTS
  Ids = {"a", "b"}
  Names = {1, 2, 3, 4, 5, 6}
  Offers = {"good", "bad"}
  NReq = 7
  NLeave = 2
  NFlow = 0
  Weak = ""
INVARIANTS Emit Ok
CONSTRAINT Going
CHECK_DEADLOCK FALSE
