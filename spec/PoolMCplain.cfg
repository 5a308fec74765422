SPECIFICATION Spec
CONSTANTS
  MaxU <- XMaxU
  MaxI <- XMaxU
  FeeOwner = "FEEOWNER"
  Kind = "plain"
  Rates = {150, 100000, 999999}
  Amounts = {0, 1, 3, 10, 200}
  MaxSteps = 2
VIEW View
INVARIANTS SupplyHeld OpenIsGuarded Ladder Emit
PROPERTIES NoLoss Halted
CHECK_DEADLOCK FALSE
