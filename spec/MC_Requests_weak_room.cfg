SPECIFICATION Spec
CONSTANTS
  Gen = FALSE
  Weak = "room"
INVARIANTS Right Emit
