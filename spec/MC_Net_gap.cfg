SPECIFICATION Spec
CONSTANTS
  Layout <- L7
  KeyFrames = {1, 4}
  Timeout = 3
  MaxDelay = 2
  Lost = 2
  Odd = 1
  Drain = 14
  Weak = "gap"
  Attempts = 2
  Behind = 1
  Tick = 1
  Slack = 0
  Firm = 1
  Near = 1
INVARIANT Ok
