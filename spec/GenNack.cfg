SPECIFICATION Spec
CONSTANTS
  M = 20
  B = 4
  Gen = TRUE
INVARIANTS Emit
