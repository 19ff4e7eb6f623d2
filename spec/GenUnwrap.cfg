SPECIFICATION Spec
CONSTANTS
  M = 8
  MaxHi = 10000
  GenLen = 40
INVARIANTS Ok Refines Emit
