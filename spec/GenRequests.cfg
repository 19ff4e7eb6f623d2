SPECIFICATION Spec
CONSTANTS
  Gen = TRUE
  Weak = ""
INVARIANTS Right Emit
