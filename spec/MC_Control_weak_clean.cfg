SPECIFICATION Spec
CONSTANTS
  MaxT = 30
  Weak = "clean"
INVARIANT Right
CHECK_DEADLOCK FALSE
