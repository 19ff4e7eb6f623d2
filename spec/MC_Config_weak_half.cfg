SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxReload = 1
  MaxAsk = 1
  Pool = "bool"
  Weak = "half"
INVARIANT Right
CHECK_DEADLOCK FALSE
