SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {1, 2, 3, 4, 7}
  MaxRec = 3
  MaxExt = 1
  MaxOps = 6
  IVF = FALSE
  Weak = "table"
  GenLen = 0
INVARIANTS Ok Emit
