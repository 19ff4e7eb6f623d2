SPECIFICATION Spec
VIEW View
CONSTANTS
  Size = 3
  Timeout = 2
  MaxSeq = 4
  MaxAdds = 5
  MaxClock = 4
  MaxSkips = 1
INVARIANTS Ok Refines
