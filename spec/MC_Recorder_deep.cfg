SPECIFICATION Spec
CONSTANTS
  NF = 4
  MaxK = 2
  MaxPads = 1
  MaxBads = 1
  MaxTicks = 1
  MaxInvalid = 0
INVARIANTS V01 V02 V03 V04
PROPERTY V05
