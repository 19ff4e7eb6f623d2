SPECIFICATION Spec
CONSTANTS
  M = 26
  B = 4
  Gen = FALSE
INVARIANTS Ok Finished
