SPECIFICATION Spec
CONSTANTS
  NF = 3
  MaxK = 2
  MaxPads = 0
  MaxBads = 0
  MaxTicks = 1
  MaxInvalid = 1
INVARIANTS V01 V02 V03 V04
PROPERTY V05
