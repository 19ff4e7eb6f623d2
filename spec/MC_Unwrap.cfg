SPECIFICATION Spec
VIEW View
CONSTANTS
  M = 16
  MaxHi = 200
  GenLen = 0
INVARIANTS Ok Refines
