SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxRec = 3
  MaxExt = 1
  MaxOps = 8
  IVF = FALSE
  Weak = ""
  GenLen = 0
INVARIANTS Ok Emit
