SPECIFICATION Spec
CONSTANTS
  MaxT = 30
  Weak = "noping"
INVARIANT Right
CHECK_DEADLOCK FALSE
