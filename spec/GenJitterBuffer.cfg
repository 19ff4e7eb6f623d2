SPECIFICATION GenSpec
CONSTANTS
  Size = 3
  Timeout = 2
  MaxSeq = 40
  MaxAdds = 30
  MaxClock = 30
  MaxSkips = 3
  GenLen = 24
INVARIANTS Emit Ok
