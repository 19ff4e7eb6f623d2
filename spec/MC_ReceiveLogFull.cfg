SPECIFICATION Spec
VIEW View
CONSTANTS
  M = 16
  Size = 8
  Base = 12
  MaxSeq = 26
  Ks = {0, 1}
INVARIANTS Ok Refines
