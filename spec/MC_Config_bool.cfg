SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxReload = 2
  MaxAsk = 2
  Pool = "bool"
  Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
