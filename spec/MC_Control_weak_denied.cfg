SPECIFICATION Spec
CONSTANTS
  MaxT = 30
  Weak = "denied"
INVARIANT Right
CHECK_DEADLOCK FALSE
