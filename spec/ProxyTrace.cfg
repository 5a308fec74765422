SPECIFICATION Spec
CONSTANTS
  MaxU <- TMaxU


CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
