SPECIFICATION Spec
CONSTANTS
  Gen = FALSE
  Weak = "legacy"
INVARIANTS Right Emit
