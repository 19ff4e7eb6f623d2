SPECIFICATION Spec
VIEW View
CONSTANTS
  M = 16
  Size = 4
  Base = 12
  MaxSeq = 26
  Ks = {0, 1, 3}
INVARIANTS Ok Refines
