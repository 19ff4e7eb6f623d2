SPECIFICATION Spec
VIEW View
CONSTANTS
  Size = 3
  Timeout = 2
  MaxSeq = 6
  MaxAdds = 6
  MaxClock = 5
  MaxSkips = 1
INVARIANTS Ok Refines
