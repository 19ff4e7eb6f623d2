SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {1, 2, 4}
  MaxRec = 3
  MaxExt = 2
  MaxOps = 8
  IVF = TRUE
  Weak = ""
  GenLen = 0
INVARIANTS Ok Emit
