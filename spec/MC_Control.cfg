SPECIFICATION Spec
CONSTANTS
  MaxT = 30
  Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
