SPECIFICATION Spec
CONSTANTS
  MaxU <- XMaxU
  MaxSteps = 4
VIEW View
INVARIANTS SelfOwned NoLeftovers Whole Emit
PROPERTIES Safe
CHECK_DEADLOCK FALSE
