SPECIFICATION Spec
CONSTANTS
  M = 65536
  B = 16
INVARIANT J05
