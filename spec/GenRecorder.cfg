SPECIFICATION GenSpec
CONSTANTS
  NF = 9
  MaxK = 3
  MaxPads = 3
  MaxBads = 1
  MaxTicks = 3
  MaxInvalid = 1
INVARIANTS Emit Ok
CONSTRAINT Stop
