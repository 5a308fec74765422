SPECIFICATION Spec
CONSTANTS
  MaxU <- XMaxU
  MaxI <- XMaxU
  FeeOwner = "FEEOWNER"
  Kind = "admin"
  Rates = {2500}
  Amounts = {5}
  MaxSteps = 5
VIEW View
INVARIANTS SupplyHeld OpenIsGuarded Ladder Emit
PROPERTIES NoLoss Halted
CHECK_DEADLOCK FALSE
