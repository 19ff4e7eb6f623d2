SPECIFICATION Spec
CONSTANTS
  MaxT = 30
  Weak = "swallow"
INVARIANT Right
CHECK_DEADLOCK FALSE
