SPECIFICATION GenSpec
CONSTANTS
  Layout <- L12
  KeyFrames = {1, 6}
  Timeout = 3
  MaxDelay = 2
  Lost = 9
  Odd = 9
  Drain = 8
  Weak = "none"
  Attempts = 2
  Behind = 1
  Tick = 1
  Slack = 0
  Firm = 1
  Near = 1
INVARIANTS Emit Ok
CHECK_DEADLOCK FALSE
