SPECIFICATION Spec
CONSTANTS
  Owners = {0, 1, 2, 3}
  Room = 2
  Limit = 3
  Workers = 2
  MaxSteps = 5
INVARIANTS Progress FirstCounts Emit
PROPERTY Drains
CHECK_DEADLOCK FALSE
