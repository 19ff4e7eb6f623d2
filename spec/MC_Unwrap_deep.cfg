SPECIFICATION Spec
VIEW View
CONSTANTS
  M = 32
  MaxHi = 600
  GenLen = 0
INVARIANTS Ok Refines
