SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxReload = 1
  MaxAsk = 1
  Pool = "three"
  Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
