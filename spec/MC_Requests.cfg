SPECIFICATION Spec
CONSTANTS
  Gen = FALSE
  Weak = ""
INVARIANTS Right Emit
