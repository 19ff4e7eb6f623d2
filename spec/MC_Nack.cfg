SPECIFICATION Spec
CONSTANTS
  M = 20
  B = 4
  Gen = FALSE
INVARIANTS Ok Finished
