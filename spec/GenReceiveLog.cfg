SPECIFICATION Spec
CONSTANTS
  Size = 64
  Half = 32768
  Bases = {65536, 65600, 98304, 130900, 131071}
  Ks = {0, 1, 10}
  GenLen = 60
INVARIANT Emit
