SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxReload = 1
  MaxAsk = 1
  Pool = "three"
  Weak = "whole"
INVARIANT Right
CHECK_DEADLOCK FALSE
