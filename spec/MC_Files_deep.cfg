SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxRec = 4
  MaxExt = 2
  MaxOps = 10
  IVF = TRUE
  Weak = ""
  GenLen = 0
INVARIANTS Ok Emit
