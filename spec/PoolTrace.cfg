SPECIFICATION Spec
CONSTANTS
  MaxU <- TMaxU
  MaxI <- TMaxI
  FeeOwner = "FEEOWNER"
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
