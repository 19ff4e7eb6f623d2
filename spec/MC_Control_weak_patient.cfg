SPECIFICATION Spec
CONSTANTS
  MaxT = 30
  Weak = "patient"
INVARIANT Right
CHECK_DEADLOCK FALSE
