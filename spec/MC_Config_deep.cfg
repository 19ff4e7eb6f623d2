SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxReload = 1
  MaxAsk = 1
  Pool = "all"
  Weak = ""
INVARIANT Right
CHECK_DEADLOCK FALSE
