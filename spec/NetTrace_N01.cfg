SPECIFICATION Spec
INVARIANT N01
VIEW Where
CHECK_DEADLOCK FALSE
CONSTANTS
  Attempts = 10
  Behind = 10
  Tick = 40
  Slack = 150
  Firm = 700
  Near = 60
