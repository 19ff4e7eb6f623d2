SPECIFICATION Spec

CONSTANTS
  Names = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxRec = 30
  MaxExt = 9
  MaxOps = 1000
  IVF = FALSE
  Weak = ""
  GenLen = 26
INVARIANTS Ok Emit
